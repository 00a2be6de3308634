import itertools
import os
import struct
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape, quoteattr

from .. import core, ref, rig
from ..core import Family, Obs, Violation, call, check, eq, expect_exc, expect_ok

PROP, LEVEL = 'C15', 'exploration'
TECHNIQUE = ('exhaustive enumeration of map documents up to three entries through the real loader, writer and comparison, judged by an '
             'independent encoder')
RULE = 'one evaluation per document (or pair of maps); distinct by the document and what it loads to'
BOUNDS = ('single entries: all types x boundary values x declared lengths x offsets x base addresses x functions; 2-3 entries over 14 (quick) '
          'or 24 (thorough) entry shapes x 6 offset choices; three ways of loading, also into maps created with other settings; hex dumps up to 3 lines; entries of 23 sizes up to 65536 registers, up to 1000 entries')
ASSUMPTIONS = ['entries without registers and hexadecimal content longer than the declared length are not judged',
               'access is compared per contiguous register block, as that is what a map stores']

mbmap = rig.mbmap
FIXED = {'s16': '>h', 'u16': '>H', 's32': '>i', 'u32': '>I', 's64': '>q', 'u64': '>Q', 'f32': '>f', 'f64': '>d'}
BAD = object()


def encode(typ, ln, text):
    """Registers of an entry, or BAD (to be refused), from the description of the map format."""
    if typ in FIXED:
        try:
            if typ[0] == 'f':
                v = float(text or '0')
            else:
                t = (text or '0').strip().lower()
                neg, t = t.startswith('-'), t[t[:1] in '+-' and len(t[:1]):]
                if not t.isalnum():
                    return BAD
                v = int(t[2:], 16) if t.startswith('0x') else int(t, 10)
                v = -v if neg else v
            return struct.pack(FIXED[typ], v)
        except (ValueError, struct.error, OverflowError):
            return BAD
    if typ == 'string':
        b = (text or '').encode('latin-1')
        n = ln or (len(b) + 1) // 2
        return b.ljust(2 * n, b'\0')[:2 * n]
    if typ in ('hexstr', None):
        h = (text or '').replace(' ', '')
        if len(h) % 4 or any(c not in '0123456789abcdefABCDEF' for c in h):
            return BAD
        b = bytes.fromhex(h)
        return b.ljust(2 * (ln or 0), b'\0')
    return BAD


def entry_xml(off, ln, typ, text, access):
    a = [('offset', off), ('len', ln), ('type', typ), ('access', access)]
    return '<regs %s>%s</regs>' % (' '.join('%s="%s"' % (k, v) for k, v in a if v is not None), escape(text or ''))


def doc_xml(addr, func, entries, extra=''):
    a = ''.join(' %s="%s"' % (k, v) for k, v in (('addr', addr), ('func', func)) if v is not None)
    return '<mbmap%s%s>%s</mbmap>' % (a, extra, ''.join(entry_xml(*e) for e in entries))


def expected(addr, func, entries):
    """(base, function code, {offset: register}, {offset: access of the block}) or BAD"""
    if func not in (None, 'holding', 'input'):
        return BAD
    regs, nxt = {}, 0
    for off, ln, typ, text, access in entries:
        if off is None:
            off = nxt
        if off < nxt:
            return BAD
        data = encode(typ, ln, text)
        if data is BAD:
            return BAD
        for i, w in enumerate(ref.words(data)):
            regs[off + i] = w
        nxt = off + len(data) // 2
    return (40000 if addr is None else addr), (4 if func == 'input' else 3), regs


def same_content(m, want, what):
    base, func, regs = want
    eq(what + ': base address', int(m.base_addr), base)
    hi = max(regs, default=0) + 2
    lo = min(regs, default=0) - 1
    for start, ws in ref.runs(regs):
        k, v = call(m.read, base + start, len(ws), func)
        if k != 'ok' or v != ref.unwords(ws):
            raise Violation('%s: registers %d+%d are %r, expected %s' % (what, start, len(ws), v, ref.unwords(ws).hex()), what + ' registers')
        for a in (start - 1, start + len(ws)):
            if a not in regs:
                expect_exc(what + ': register outside the map', mbmap.ModbusMapError, m.read, base + a, 1)
        k, v = call(m.read, base + start, len(ws) + 1)
        check((k == 'ok') == (start + len(ws) in regs), what + ': range beyond the block accepted')
    for a in list(regs)[:40]:
        eq(what + ': single register', m.read(base + a, 1), struct.pack('>H', regs[a]))
    expect_exc(what + ': other function', mbmap.ModbusMapError, m.read, base + min(regs, default=0), 1, 7 - func)


def load(xml, way, own=None):
    m = mbmap.ModbusMap(**(own or {}))
    if way == 'element':
        el = ET.fromstring(xml)
        return m, lambda: m.from_xml(element=el)
    d = core.scratch_dir('docs')
    name = 'map.xml'
    with open(os.path.join(d, name), 'w', encoding='utf-8') as f:
        f.write(xml)
    if way == 'file':
        return m, lambda: m.from_xml(os.path.join(d, name))
    return m, lambda: m.from_xml(name, rig.util.PathList([core.scratch_dir('nothing'), d]))


OWN = [{'slave_id': 5}, {'base_addr': 100}, {'base_addr': 0}, {'func': 'input'}, {'slave_id': 1, 'func': 'input', 'base_addr': 50000}]


def judge(addr, func, entries, ways=('element',), extra=None, own=None):
    want = expected(addr, func, entries)
    attrs = ''.join(' %s=%s' % (k, quoteattr(v)) for k, v in (extra or []))
    xml = doc_xml(addr, func, entries, attrs)
    n = 0
    for way in ways:
        m, fn = load(xml, way, own)
        n += 1
        if want is BAD:
            expect_exc('load of a bad document', mbmap.ModbusMapError, fn)
            continue
        k, v = call(fn)
        if k != 'ok':
            raise Violation('load of %s refused: %s: %s' % (xml, type(v).__name__, v), 'document refused')
        same_content(m, want, 'loaded map')
        for k, v in (extra or []):
            eq('attribute %s' % k, getattr(m, k), v)
        # written and loaded again
        e = expect_ok('to_xml', m.to_xml)
        text = ET.tostring(e)
        for again in (lambda x: x.from_xml(element=e), lambda x: x.from_xml(element=ET.fromstring(text))):
            m2 = mbmap.ModbusMap()
            k, v = call(again, m2)
            if k != 'ok':
                raise Violation('the XML written is refused: %s: %s' % (text, v), 'round trip refused')
            same_content(m2, want, 'reloaded map')
            for k, v in (extra or []):
                eq('attribute %s after a round trip' % k, getattr(m2, k), v)
            for x, y in ((m, m2), (m2, m)):
                eq('comparison after a round trip', bool(expect_ok('not_equal', x.not_equal, y)), False)
        parent = ET.Element('parent')
        expect_ok('to_xml(parent)', m.to_xml, parent)
        m3 = mbmap.ModbusMap()
        expect_ok('load from a parent', m3.from_xml, element=parent[0])
        same_content(m3, want, 'map written into a parent')
        n += 4
    return n, xml, want is BAD


VALUES = {
    's16': ['0', '1', '-1', '32767', '-32768', '32768', '-32769', '0x7fff', '0x8000', None, 'x', '1.5', '-0x10'],
    'u16': ['0', '65535', '65536', '-1', '0xABCD', '0x10000', '255', '256', None, 'zz'],
    's32': ['0', '-1', '2147483647', '-2147483648', '2147483648', '-2147483649', '0x12345678', None, 'q'],
    'u32': ['0', '4294967295', '4294967296', '-1', '0xDEADBEEF', '65536', None, 'q'],
    's64': ['0', '-1', '9223372036854775807', '-9223372036854775808', '9223372036854775808', '0x123456789ABCDEF0', None, 'q'],
    'u64': ['0', '18446744073709551615', '18446744073709551616', '-1', '0xFEDCBA9876543210', '4294967296', None, 'q'],
    'f32': ['0', '1.5', '-2.25e3', '1e39', '3.4e38', '1', None, 'abc'],
    'f64': ['0', '1.5', '-2.25e3', '1e39', '1e308', '1e400', None, 'abc'],
    'string': [' a', 'b ', '\nc\n', '  ', '0x41', '12', 'a', 'ab', 'abc', 'abcdefgh', 'a b', '\u00e9\u00ff', 'x<&>"y', '100% {0}', '{} %s\\', None],
    'hexstr': ['0102', '01 02 03 04', 'ABCDef01', 'ffff', '010', '01', '0g01', '01020', '0102zz00', None],
    None: ['0102', '0102030405060708', '012', None],
    'u8': ['1'], 'int16': ['1'], 'S16': ['1'], '': ['1'], 'bits': [None],
}


for t in FIXED:            # other ways to write numbers
    VALUES[t] += [' 7 ', '\n  7\n', '\t7', '+7', ' -7 ', '7 7', '', ' '] + ([' 1.5e2 ', '1E-3', '-0.0', '.5', '5.', 'inf', '-inf'] if t[0] == 'f' else
                                                                        ['0X1F', ' 0x1f ', '\n0x1F\n', '0x0', '0x001f', '0xfffffffffffffffff', '0x', '1e1', '--1', '0x1g'])


def zero(ln, typ, text):
    return typ in ('string', 'hexstr', None) and not ln and not text


def too_long(ln, typ, text):
    return typ in ('hexstr', None) and ln and text and len(text.replace(' ', '')) > 4 * ln


SHAPES = [(None, 's16', '-2'), (None, 'u16', '65535'), (None, 'u32', '0x10002'), (None, 's64', '-3'), (None, 'f32', '1.5'), (None, 'string', 'abc'),
          (3, 'string', 'wxyz'), (2, 'string', None), (None, 'hexstr', '0102'), (3, 'hexstr', '0a0b 0c0d'), (2, 'hexstr', None), (None, None, 'beef'),
          (None, 'u16', '70000'), (None, 'what', '1')]
MORE = [(None, 'u16', None), (9, 'u16', '4'), (None, 's32', '-70000'), (1, 'u64', '0x1122334455667788'), (None, 'f64', '-2.5'), (1, 'string', 'a'),
        (None, 'string', '\u00e9'), (None, 'hexstr', '010203040506'), (1, None, '0102'), (None, 's16', 'x')]
OFFS = ['none', 'next', 'gap1', 'gap3', 'overlap', 'zero']


def place(shapes, offs, accesses):
    out, nxt = [], 0
    for (ln, typ, text), o, acc in zip(shapes, offs, accesses):
        off = {'none': None, 'next': nxt, 'gap1': nxt + 1, 'gap3': nxt + 3, 'overlap': nxt - 1, 'zero': 0}[o]
        if off is not None and off < 0:
            off = 0
        out.append((off, ln, typ, text, acc))
        data = encode(typ, ln, text)
        nxt = (nxt if off is None else off) + (1 if data is BAD else len(data) // 2)
    return out


def families(tier):
    thorough = tier == 'thorough'

    def single_cases():
        for typ, texts in VALUES.items():
            for text in texts:
                for ln in (None, 0, 1, 2, 5):
                    if zero(ln, typ, text) or too_long(ln, typ, text):
                        continue
                    for off in (None, 0, 1, 7, 65535):
                        yield [typ, text, ln, off]

    def single_run(c):
        typ, text, ln, off = c
        n, outs = 0, []
        if typ == 'string' and ln and text and len(text) > 2 * ln:
            ways = ('element',)
        else:
            ways = ('element', 'file', 'pathlist')
        for addr, func in ((None, None), (0, 'holding'), (40000, 'input'), (1, 'holding'), (65535, None), (50000, 'coil'), (40000, '')):
            for acc in (None, 'r', 'rw'):
                k, xml, bad = judge(addr, func, [(off, ln, typ, text, acc)], ways if acc is None else ('element',))
                n += k
                outs.append((xml, bad))
        return Obs(steps=n, execs=len(outs), outcomes=outs)

    def number_cases():
        for sp in ('0%d', '00%d', ' %d', '%d\n', '+%d'):
            for off in (0, 7, 8, 9, 10, 64, 100):
                for ln in (1, 5, 8, 9, 10):
                    for addr in (None, 0, 8, 10, 40000):
                        for typ in ('u16', 'u32', 'string', 'hexstr'):
                            yield [sp, off, ln, addr, typ]

    def number_run(c):
        """Numbers in every spelling of decimals."""
        sp, off, ln, addr, typ = c
        plain = [(off, ln, typ, '7' if typ[0] == 'u' else '0102' if typ == 'hexstr' else 'ab', None), (None, None, 'u16', '9', None)]
        want = expected(addr, None, plain)
        e = [(sp % off, sp % ln) + plain[0][2:], plain[1]]
        for way in ('element', 'file', 'pathlist'):
            m, fn = load(doc_xml(None if addr is None else sp % addr, None, e), way)
            expect_ok('load with numbers like %r' % (sp % 7), fn)
            same_content(m, want, 'loaded map')
        return Obs(steps=3, outcome=c)

    def own_cases():
        for i in range(len(OWN)):
            for addr in (None, 0, 100, 40000, 65000):
                for func in (None, 'holding', 'input', 'coil'):
                    for shape in range(len(SHAPES)):
                        yield [i, addr, func, shape]

    def own_run(c):
        i, addr, func, shape = c
        k, xml, bad = judge(addr, func, [(3,) + SHAPES[shape] + (None,)], ('element', 'file', 'pathlist'), own=OWN[i])
        return Obs(steps=k, outcome=(c, bad))

    shapes = SHAPES + (MORE if thorough else [])

    def multi_cases():
        for a, b in itertools.product(range(len(shapes)), repeat=2):
            yield [a, b]

    def multi_run(c):
        a, b = c
        n, outs = 0, []
        for o1, o2 in itertools.product(('none', 'gap1', 'gap3'), OFFS):
            es = place([shapes[a], shapes[b]], [o1, o2], ['rw', 'rw'])
            k, xml, bad = judge(40000, None, es, ('element', 'file', 'pathlist'), [('ns', 'n'), ('lid', 'L1'), ('mapid', 'M"<'), ('time', '2014-01-01T00:00:00Z')])
            n += k
            outs.append((xml, bad))
            if bad:
                continue
            for third, o3 in itertools.product(range(len(shapes)), OFFS):
                es3 = place([shapes[a], shapes[b], shapes[third]], [o1, o2, o3], [None, 'r', None])
                k, xml, bad = judge(7, 'holding', es3)
                n += k
                outs.append((xml, bad))
        return Obs(steps=n, execs=len(outs), outcomes=outs)

    # ---- comparison
    def build(spec):
        m = mbmap.ModbusMap(func=spec[1], base_addr=spec[0])
        for off, cnt, acc in spec[2]:
            m.regs_add(offset=off, count=cnt, access=acc)
        for off, v in spec[3]:
            m.write(spec[0] + off, struct.pack('>H', v))
        return m

    LAYOUTS = [[(0, 1)], [(0, 2)], [(0, 1), (1, 1)], [(1, 1)], [(0, 1), (2, 1)], [(0, 2), (3, 1)], [(0, 1), (2, 2)], [(0, 1), (2, 1), (4, 1)],
               [(0, 2), (2, 1), (4, 1)], [(0, 3), (4, 1)]]
    SPECS = []
    for lay in LAYOUTS:
        offs = [o + i for o, c in lay for i in range(c)]
        blocks = len(ref.runs({o: 0 for o in offs}))
        accs = {tuple(['rw'] * len(lay)), tuple(['r'] * len(lay))}
        if blocks == len(lay):
            accs |= set(itertools.product(['r', 'rw'], repeat=len(lay)))
        for acc in sorted(accs):
            for writes in [[]] + [[(o, v)] for o in offs for v in (1, 256, 65535)] + [[(offs[0], 1), (offs[-1], 1)]]:
                SPECS.append((40000, 'holding', [(o, c, a) for (o, c), a in zip(lay, acc)], writes))
    SPECS += [(b, f, l, w) for b in (40000, 0) for f in ('holding', 'input') for l in ([], [(0, 1, 'rw')], [(0, 1, 'r'), (3, 2, 'rw')])
              for w in ([], [(0, 5)] if l else [])]

    def meaning(s):
        regs = {o + i: 0 for o, c, a in s[2] for i in range(c)}
        regs.update(dict(s[3]))
        acc = {o + i: a for o, c, a in s[2] for i in range(c)}
        return s[0], s[1], tuple(sorted(regs.items())), tuple(sorted(acc.items()))

    def cmp_cases():
        for i in range(len(SPECS)):
            yield [i]

    def cmp_run(c):
        a = SPECS[c[0]]
        for b in SPECS:
            k, v = call(build(a).not_equal, build(b))
            if k != 'ok':
                raise Violation('comparison of %r and %r raises %s: %s' % (a, b, type(v).__name__, v), 'comparison raises')
            if bool(v) != (meaning(a) != meaning(b)):
                raise Violation('comparison of %r and %r says %r' % (a, b, v), 'comparison')
        return Obs(steps=len(SPECS), execs=len(SPECS), outcomes=[(c, i) for i in range(len(SPECS))])

    # ---- hex dumps
    LINES = ['00 01', '00 01\n', 'ff FE 0a b0\n', '# comment\n', '\n', '1 2\n', '00\n', 'zz 00\n', '100 00\n', ' 05 06 \n', '00 11\r\n', '12 34 56 78 9a bc\n', '0a\t0b\n', '\t01  02 \t 03\t04\t\n', '0C 0D\t\n',
             '\t#01\n', ' # 01\n', '01 02 # 03\n']

    def hex_cases():
        for n in (1, 2, 3):
            for ls in itertools.product(range(len(LINES)), repeat=n):
                yield list(ls)

    def hex_run(c):
        text = ''.join(LINES[i] if LINES[i].endswith('\n') or j == len(c) - 1 else LINES[i] + '\n' for j, i in enumerate(c))
        data, bad = b'', False
        for line in text.splitlines():
            if line.startswith('#'):
                continue
            for t in line.split():
                try:
                    data += bytes([int(t, 16)])
                except ValueError:
                    bad = True
        if not data and not bad:
            return Obs(steps=0, outcome=c)
        p = os.path.join(core.scratch_dir('hex'), 'x.hex')
        with open(p, 'w', newline='') as f:
            f.write(text)
        m = mbmap.ModbusMap(base_addr=100)
        if bad or len(data) % 2:
            expect_exc('load of a bad hex dump', mbmap.ModbusMapError, m.from_hex, p)
        else:
            k, v = call(m.from_hex, p)
            if k != 'ok':
                raise Violation('hex dump %r refused: %s' % (text, v), 'hex refused')
            want = (100, 3, dict(enumerate(ref.words(data))))
            same_content(m, want, 'hex dump')
            m2 = mbmap.ModbusMap()
            expect_ok('round trip', m2.from_xml, element=m.to_xml())
            same_content(m2, want, 'reloaded hex dump')
            eq('comparison', bool(m.not_equal(m2)), False)
        return Obs(steps=2, outcome=c)

    # documents that are long: entries, registers per entry, offsets
    LENGTHS = [15, 16, 17, 31, 32, 33, 63, 64, 65, 124, 125, 126, 127, 128, 129, 255, 256, 257, 1000, 4096, 32768, 65535, 65536]

    def large_cases():
        for n in LENGTHS:
            for typ in ('hexstr', 'string'):
                for fill in ('full', 'half', 'none'):
                    for off in (0, 1, 65535, 100000) if n < 5000 or thorough else [0]:
                        yield ['entry', n, typ, fill, off]
        for n in (9, 10, 11, 99, 100, 101, 255, 256, 257, 300, 1000):
            for gap in (0, 1, 9):
                for typ in ('u16', 'u64', 'string', 'mixed'):
                    yield ['entries', n, typ, gap, 0]

    def large_run(c):
        kind, n, typ, x, off = c
        if kind == 'entry':
            k = {'full': n, 'half': n // 2, 'none': 0}[x]
            text = ''.join('%02x%02X' % (i * 7 % 256, i // 5 % 256) for i in range(k)) if typ == 'hexstr' else ''.join(chr(33 + i % 90) for i in range(2 * k))
            text = {'hexstr': ' '.join(text[i:i + 32] for i in range(0, len(text), 32))}.get(typ, text)
            return Obs(steps=judge(40000, 'holding', [(off, n, typ, text, 'rw'), (None, 1, 'u16', '7', 'r')], ('element', 'path list'))[0], outcome=c)
        entries, o = [], 0
        for i in range(n):
            t = ('u16', 's32', 'string', 'hexstr', 'f64')[i % 5] if typ == 'mixed' else typ
            ln = {'u16': 1, 'u64': 4, 's32': 2, 'f64': 4}.get(t, 3)
            text = {'string': 'e%04d' % i, 'hexstr': '%04x' % i}.get(t, str(i))
            entries.append((o if x else None, ln if i % 2 else None if t not in ('string', 'hexstr') else ln, t, text, 'rw' if i // 10 % 2 else 'r'))
            o += ln + x
        return Obs(steps=judge(0, 'input', entries)[0], outcome=c)

    return [
        Family('large', large_cases, large_run, what='entries of up to 65536 registers, documents of up to 1000 entries'),
        Family('single-entries', single_cases, single_run, what='every type, value, declared length and offset of one entry'),
        Family('numbers', number_cases, number_run, what='offsets, lengths and base addresses in every spelling of decimals'),
        Family('objects', own_cases, own_run, what='documents loaded into maps with settings of their own'),
        Family('entries', multi_cases, multi_run, what='two and three entries in every relative placement'),
        Family('comparison', cmp_cases, cmp_run, what='all pairs of small maps'),
        Family('hex-dumps', hex_cases, hex_run, what='hex dumps of up to three lines'),
    ]
