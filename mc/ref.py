"""Reference model, written from the SunSpec/Modbus documents and independent of the library: point types, model
definitions (SMDX), layouts, device images and map documents."""
import math
import os
import struct
from xml.sax.saxutils import escape, quoteattr

# name -> registers (None: given by the definition)
TYPES = {
    'int16': 1, 'uint16': 1, 'count': 1, 'acc16': 1, 'enum16': 1, 'bitfield16': 1, 'pad': 1, 'sunssf': 1,
    'int32': 2, 'uint32': 2, 'acc32': 2, 'enum32': 2, 'bitfield32': 2, 'ipaddr': 2, 'float32': 2,
    'int64': 4, 'uint64': 4, 'acc64': 4, 'eui48': 4, 'ipv6addr': 8, 'string': None,
}
INT = {                       # name -> (bits, signed, raw pattern meaning "not implemented")
    'int16': (16, True, 0x8000), 'sunssf': (16, True, 0x8000), 'pad': (16, True, 0x8000),
    'uint16': (16, False, 0xFFFF), 'count': (16, False, 0xFFFF), 'enum16': (16, False, 0xFFFF),
    'bitfield16': (16, False, 0xFFFF), 'acc16': (16, False, 0),
    'int32': (32, True, 0x80000000), 'uint32': (32, False, 0xFFFFFFFF), 'enum32': (32, False, 0xFFFFFFFF),
    'bitfield32': (32, False, 0xFFFFFFFF), 'acc32': (32, False, 0), 'ipaddr': (32, False, 0),
    'int64': (64, True, 1 << 63), 'uint64': (64, False, (1 << 64) - 1), 'acc64': (64, False, 0),
}
VALUE_TYPES = [t for t in TYPES if t not in ('pad', 'sunssf')]


def decode(t, data):
    """Value the standard assigns to the registers (None: not implemented)."""
    if t in INT:
        bits, signed, un = INT[t]
        raw = int.from_bytes(data, 'big')
        if raw == un:
            return None
        if signed and raw >> (bits - 1):
            raw -= 1 << bits
        return raw
    if t == 'float32':
        f = struct.unpack('>f', data)[0]
        return None if f != f else f
    if t == 'string':
        s = data.rstrip(b'\0')
        return s.decode('latin-1') if s else None
    if t == 'ipv6addr':
        return None if not any(data) else ':'.join(data[i:i + 4].hex().upper() for i in (0, 4, 8, 12))
    if t == 'eui48':
        return None if data == b'\xff' * 8 else ':'.join('%02X' % b for b in data[2:])
    raise KeyError(t)


def unimpl(t, length=None):
    """Registers of a point that is not implemented."""
    if t in INT:
        return INT[t][2].to_bytes(INT[t][0] // 8, 'big')
    if t == 'float32':
        return b'\x7f\xc0\x00\x00'
    if t == 'eui48':
        return b'\xff' * 8
    return bytes(2 * (length or TYPES[t]))


def encode(t, v, length=None):
    """Registers of a value (in range)."""
    if t in INT:
        return (v & ((1 << INT[t][0]) - 1)).to_bytes(INT[t][0] // 8, 'big')
    if t == 'float32':
        return struct.pack('>f', v)
    if t == 'string':
        b = v.encode('latin-1')[:2 * length]
        return b + bytes(2 * length - len(b))
    if t == 'ipv6addr':
        return bytes.fromhex(v.replace(':', ''))
    if t == 'eui48':
        return b'\0\0' + bytes.fromhex(v.replace(':', ''))
    raise KeyError(t)


def int_range(t):
    bits, signed, un = INT[t]
    return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)


def words(data):
    return list(struct.unpack('>%dH' % (len(data) // 2), data))


def unwords(ws):
    return struct.pack('>%dH' % len(ws), *ws)


# ---------------------------------------------------------------- definitions

class P(object):
    """A point definition. offset None: right after the previous point."""

    def __init__(self, id, type, length=None, sf=None, access=None, mandatory=None, units=None, offset=None, symbols=(),
                 label=None, extra=None):
        self.id, self.type, self.sf, self.access, self.mandatory, self.units = id, type, sf, access, mandatory, units
        self.offset, self.symbols, self.label = offset, symbols, label
        self.declared_len = length
        self.len = length if length is not None else TYPES.get(type, 1)
        self.extra = extra or {}

    def xml(self):
        a = [('id', self.id), ('offset', self.offset), ('type', self.type)]
        a += [('len', self.declared_len), ('sf', self.sf), ('access', self.access), ('mandatory', self.mandatory),
              ('units', self.units)]
        a += list(self.extra.items())
        body = ''.join('<symbol id=%s>%s</symbol>' % (quoteattr(k), v) for k, v in self.symbols)
        return '<point %s>%s</point>' % (' '.join('%s=%s' % (k, quoteattr(str(v))) for k, v in a if v is not None), body)


class Model(object):
    """A model definition; lays out its blocks."""

    def __init__(self, id, fixed, repeating=None, name=None, block_name=None, label=None, length=None, description=None,
                 notes=None):
        self.id, self.name, self.block_name, self.label = id, name, block_name, label
        self.description, self.notes = description, notes
        self.fixed, self.fixed_len = self._layout(fixed)
        self.repeating = None
        self.rep_len = 0
        if repeating is not None:
            self.repeating, self.rep_len = self._layout(repeating)
        self.len = length if length is not None else self.fixed_len + self.rep_len

    @staticmethod
    def _layout(points):
        off = 0
        for p in points:
            if p.offset is None:
                p.offset = off
            off = p.offset + p.len
        return list(points), off

    def xml(self):
        s = '<sunSpecModels v="1"><model id="%d" len="%d"%s>' % (
            self.id, self.len, '' if self.name is None else ' name=%s' % quoteattr(self.name))
        s += '<block len="%d">%s</block>' % (self.fixed_len, ''.join(p.xml() for p in self.fixed))
        if self.repeating is not None:
            s += '<block len="%d" type="repeating"%s>%s</block>' % (
                self.rep_len, '' if self.block_name is None else ' name=%s' % quoteattr(self.block_name),
                ''.join(p.xml() for p in self.repeating))
        s += '</model><strings id="%d" locale="en">' % self.id
        m = ''
        for tag, text in (('label', self.label), ('description', self.description), ('notes', self.notes)):
            if text is not None:
                m += '<%s>%s</%s>' % (tag, escape(text), tag)
        if m:
            s += '<model>%s</model>' % m
        for p in self.fixed + (self.repeating or []):
            if p.label is not None:
                s += '<point id=%s><label>%s</label></point>' % (quoteattr(p.id), escape(p.label))
        return s + '</strings></sunSpecModels>'

    def write(self, directory):
        with open(os.path.join(directory, 'smdx_%05d.xml' % self.id), 'w', encoding='utf-8') as f:
            f.write(self.xml())

    def length(self, repeats=0):
        return self.fixed_len + repeats * self.rep_len

    def instance(self, repeats=0):
        """[(block number, offset of the block, point definitions)]"""
        out = [(0, 0, self.fixed)]
        for i in range(repeats):
            out.append((i + 1, self.fixed_len + i * self.rep_len, self.repeating))
        return out

    def points(self, repeats=0):
        """(block number, point, offset in the model) of all points in order."""
        return [(b, p, off + p.offset) for b, off, ps in self.instance(repeats) for p in ps]

    def value_points(self, repeats=0):
        return [(b, p, off) for b, p, off in self.points(repeats) if p.type not in ('pad', 'sunssf')]

    def sf_of(self, p, block, repeats=0):
        """None, ('const', n) or ('point', offset in the model): how the point is scaled."""
        if p.sf is None:
            return None
        try:
            return ('const', int(p.sf))
        except ValueError:
            pass
        inst = self.instance(repeats)
        for b in (block, 0):
            for q in inst[b][2]:
                if q.type == 'sunssf' and q.id == p.sf:
                    return ('point', inst[b][1] + q.offset)
        return ('missing', p.sf)

    def expect(self, regs, base, repeats=0):
        """{(block, point id): (value_base, sf, value)} for registers at base (a dict or function of addresses)."""
        get = regs.__getitem__ if isinstance(regs, dict) else regs
        out = {}
        for b, p, off in self.value_points(repeats):
            data = unwords([get(base + off + i) for i in range(p.len)])
            raw = decode(p.type, data)
            how = self.sf_of(p, b, repeats)
            sf = None
            if how:
                sf = how[1] if how[0] == 'const' else decode('sunssf', unwords([get(base + how[1])]))
            out[b, p.id] = (raw, sf, scaled(raw, sf))
        return out


def scaled(raw, sf):
    if raw is None:
        return None
    if not sf:
        return raw
    return raw * math.pow(10, sf)


def close(a, b):
    """Equal scaled values (the last bits of a float are not the property's business)."""
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a is b or (type(a) is type(b) and a == b)
    if a == b:
        return True
    return abs(a - b) <= 1e-12 * max(abs(a), abs(b))


# ---------------------------------------------------------------- device images

SUNS = [0x5375, 0x6e53]


def image(base, chain, end=True, end_len=0):
    """chain: [(model id, length, [registers])] -> {address: register}"""
    regs = {base: SUNS[0], base + 1: SUNS[1]}
    a = base + 2
    for mid, length, ws in chain:
        regs[a] = mid
        regs[a + 1] = length
        for i in range(length):
            regs[a + 2 + i] = ws[i] if i < len(ws) else 0
        a += 2 + length
    if end:
        regs[a] = 0xFFFF
        if end_len is not None:
            regs[a + 1] = end_len
    return regs


def runs(regs):
    """Contiguous runs of an address dictionary: [(start, [registers])]"""
    out = []
    for a in sorted(regs):
        if out and a == out[-1][0] + len(out[-1][1]):
            out[-1][1].append(regs[a])
        else:
            out.append((a, [regs[a]]))
    return out


def mbmap_xml(regs, addr=0, func='holding'):
    """A map document with explicit offsets holding exactly these registers (addr: base address attribute)."""
    s = '<mbmap addr="%d" func="%s">' % (addr, func)
    for start, ws in runs(regs):
        s += '<regs offset="%d" len="%d" type="hexstr">%s</regs>' % (start - addr, len(ws), ''.join('%04x' % w for w in ws))
    return s + '</mbmap>'


# ---------------------------------------------------------------- register contents

def mix(k):
    return (k * 2654435761 + 0x9E3779B97F4A7C15) & ((1 << 64) - 1)


def sample(t, length, k):
    """The k-th of a series of implemented register patterns of a type."""
    if t == 'sunssf':
        return struct.pack('>h', k % 7 - 3)
    if t in INT:
        bits, signed, un = INT[t]
        raw = (mix(k) >> 7) & ((1 << bits) - 1)
        if t == 'acc64':
            raw &= (1 << 62) - 1
        if raw == un:
            raw = 1
        return raw.to_bytes(bits // 8, 'big')
    if t == 'float32':
        return struct.pack('>f', (k % 4001 - 2000) * 0.5 + 0.25)
    if t == 'string':
        s = ('%d~' % k) * (2 * length)
        return s[:2 * length - k % 2].encode('latin-1').ljust(2 * length, b'\0')
    if t == 'ipv6addr':
        return mix(k).to_bytes(8, 'big') + mix(k + 7).to_bytes(8, 'big')
    if t == 'eui48':
        return b'\0\0' + (mix(k) >> 16 | 1).to_bytes(6, 'big')
    raise KeyError(t)


def fill(m, repeats=0, k=0, which=None):
    """Registers of an instance of the model; which(block, point, n) -> bytes or None for the k-th sample."""
    ws = [0xBEEF] * m.length(repeats)
    for n, (b, p, off) in enumerate(m.points(repeats)):
        data = which(b, p, n) if which else None
        if data is None:
            data = sample(p.type, p.len, k * 131 + n)
        ws[off:off + p.len] = words(data)
    return ws


# texts of every shape (blanks, line breaks, markup, scripts, lengths)
SHAPES = [' x', 'x ', '  x  ', 'x  y', 'x\ny', '\nx\n', '\n    x\n    y\n  ', 'x\ty', '\tx', ' ', '\n', '0', 'None', 'True', 'nan', '%s', '%', '%(a)s', '{}', '{0}', '{x', '&amp;', '&#65;', '<b>x</b>',
          '<![CDATA[x]]>', '<!-- x -->', '<?x?>', ']]>', '"x"', "'x'", '\\n', '\\', '/x', '#x', '$x', 'x;y', 'x,y', 'x|y', '\xa0x\xa0', 'e\u0301', '\xe9', '\u20ac', '\u2028x', '\u200fx', '\u0627',
          '\U0001f600', '\u3042', '\ufeffx', '\x85x', 'label', 'notes', 'x' * 255, 'x' * 256, 'x y ' * 100, 'x\n' * 1000, '\xe9' * 70000]
