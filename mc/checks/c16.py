import itertools
import os
import struct
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape

from .. import core, ref, rig, wire
from ..core import Family, Obs, Violation, call, check, eq, expect_exc, expect_ok
from ..ref import P
from ..wire import SimDevice, world

PROP, LEVEL = 'C16', 'exploration'
TECHNIQUE = ('exhaustive enumeration of device contents (registers read by the real client) and of documents, through the real writer and '
             'loader, judged by an independent reading of registers and documents')
RULE = 'one evaluation per device content or document; distinct by the content'
BOUNDS = ('every point of a model with all 20 types over 8-10 boundary patterns, 0..3 repeating blocks over all patterns of 4 values; '
          'chains of up to 3 (quick) or 4 (thorough) of 8 model kinds; all combinations of optional document parts; 40 malformations at every element')
ASSUMPTIONS = ['assigned empty strings, accumulators assigned 0, characters XML cannot carry and devices never read are not judged']

ET_ROOT = 'sunSpecPics'
device = rig.device
VAL = [t for t in ref.TYPES if t not in ('pad', 'sunssf')]
ALL = ref.Model(64401, [P('p_' + t, t, length=3 if t == 'string' else None, access='rw' if i % 2 else None) for i, t in enumerate(VAL)] +
                [P('pd', 'pad'), P('SF', 'sunssf'), P('X', 'int16', sf='SF', access='rw'), P('K', 'uint32', sf='-2')], name='all')
REP = ref.Model(64402, [P('SF', 'sunssf'), P('N', 'uint16'), P('S', 'string', 2), P('F', 'int16', sf='SF')],
                [P('A', 'int16', sf='RSF', access='rw'), P('RSF', 'sunssf'), P('B', 'uint16', sf='SF'), P('pd', 'pad'), P('C', 'int16', sf='2'),
                 P('G', 'bitfield32')], name='rep', block_name='ch')
FIX = ref.Model(64403, [P('A', 'uint16'), P('B', 'int16')], name='fix')
COMMON = ref.Model(1, [P('Mn', 'string', 16, mandatory='true'), P('Md', 'string', 16), P('Opt', 'string', 8), P('Vr', 'string', 8),
                       P('SN', 'string', 16), P('DA', 'uint16', access='rw'), P('Pad', 'pad')], name='common')
ONLY = ref.Model(64404, [], [P('A', 'int16'), P('Z', 'enum16')], name='only')
MODELS = {m.id: m for m in (ALL, REP, FIX, COMMON, ONLY)}
UNKNOWN = 64499


def setup():
    rig.definitions(list(MODELS.values()))


def patterns(p):
    """Register patterns of a point whose value XML can carry."""
    t = p.type
    if t == 'sunssf':
        return [struct.pack('>h', x) for x in (-32768, -10, -3, -1, 0, 1, 4, 10)]
    if t in ref.INT:
        bits, signed, un = ref.INT[t]
        xs = [un, 0, 1, 2, (1 << (bits - 1)) - 1, (1 << bits) - 1, (1 << (bits - 1)) + 1, 0x1234, 1 << (bits - 2)]
        if t == 'acc64':
            xs = [x for x in xs if x < 1 << 63]
        return [x.to_bytes(bits // 8, 'big') for x in dict.fromkeys(xs)]
    if t == 'float32':
        return [struct.pack('>f', x) for x in (0.0, 1.5, -1.1, 3.4e38, 1e-40, float('inf'), float('-inf'))] + [b'\x7f\xc0\0\0', b'\x80\0\0\0']
    if t == 'string':
        n = 2 * p.len
        return [s.encode('latin-1').ljust(n, b'\0')[:n] for s in ('', 'a', 'ab', 'x' * n, 'a b', '<&">', '0x10', '12', '\u00e9\u00ff', 'None', "a'b", '-',
                                                                           ' ab', 'ab ', ' ', '  a ', 'a  b', ' 7', '100%', '%s', '%d', '%%', '{}', '{0}', '{', '}', '{a}', '\\',
                                                                           '\\n', '$x', '~', '*', '`', ';', '#')]
    if t == 'ipv6addr':
        return [bytes(16), b'\xff' * 16, bytes(range(16)), b'\0' * 15 + b'\1']
    if t == 'eui48':
        return [b'\xff' * 8, b'\0\0\1\2\3\4\5\6', b'\0\0\xaa\xbb\xcc\xdd\xee\xf0']
    raise KeyError(t)


# ---- the device from registers, and what it must look like

def content(chain, base=40000):
    """chain: [(model id, length, registers)] -> expected description of the device."""
    out, regs, addr, count = [], ref.image(base, chain), base + 2, {}
    for mid, ln, ws in chain:
        count[mid] = count.get(mid, 0) + 1
        m = MODELS.get(mid)
        d = {'id': mid, 'len': ln, 'index': count[mid], 'known': m is not None, 'blocks': []}
        if m is not None:
            reps = (ln - m.fixed_len) // m.rep_len if m.rep_len else 0
            legacy = mid == 1 and ln == 65      # the common model without its padding register
            vals = m.expect(lambda a: regs.get(a, 0), addr + 2, reps) if ln >= m.fixed_len or legacy else {}
            for b, off, ps in m.instance(reps):
                d['blocks'].append(({p.id: vals[b, p.id] for p in ps if p.type not in ('pad', 'sunssf')},
                                    {p.id: ref.decode('sunssf', struct.pack('>H', ws[off + p.offset])) for p in ps if p.type == 'sunssf'}))
        out.append(d)
        addr += 2 + ln
    return out


def same_number(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return struct.pack('>d', a) == struct.pack('>d', b)
    return type(a) is type(b) and a == b


def compare(dev, want, what, impl=False):
    eq(what + ': models', [(int(m.id), int(m.len), int(m.index)) for m in dev.models_list], [(d['id'], d['len'], d['index']) for d in want])
    for m, d in zip(dev.models_list, want):
        check((m.model_type is not None) == d['known'], '%s: model %d: definition' % (what, d['id']))
        check((m.load_error is None) == d['known'], '%s: model %d: load error %s' % (what, d['id'], m.load_error))
        ms = dev.models.get(m.id)
        check(ms is not None and any(x is m for x in ms), '%s: model %d is not listed under its id' % (what, d['id']), 'models by id')
        eq(what + ': number of blocks of model %d' % d['id'], len(m.blocks), len(d['blocks']))
        for i, (b, (vals, sfs)) in enumerate(zip(m.blocks, d['blocks'])):
            eq(what + ': points of block %d' % i, sorted(b.points), sorted(vals))
            eq(what + ': block index', b.index, i)
            for pid, (raw, sf, v) in vals.items():
                p = b.points[pid]
                w = '%s: model %d block %d point %s' % (what, d['id'], i, pid)
                if not same_number(p.value_base, raw):
                    raise Violation('%s: register value %r, expected %r' % (w, p.value_base, raw), what + ' value')
                if p.value_sf != sf:
                    raise Violation('%s: scale factor %r, expected %r' % (w, p.value_sf, sf), what + ' scale factor')
                if not ref.close(p.value, v) and not same_number(p.value, v):
                    raise Violation('%s: value %r, expected %r' % (w, p.value, v), what + ' value')
                if impl and bool(p.impl) != (raw is not None):
                    raise Violation('%s: implemented: %r' % (w, p.impl), what + ' implemented')
            for pid, x in sfs.items():
                if b.points_sf[pid].value_base != x:
                    raise Violation('%s: scale factor point %s of block %d: %r, expected %r' % (what, pid, i, b.points_sf[pid].value_base, x), what + ' sf')


def scanned(chain):
    dev = rig.client_device(SimDevice(ref.image(40000, chain)), 'tcp')
    expect_ok('scan', dev.scan)
    expect_ok('read', dev.read_points)
    return dev


def element(dev, single):
    root = ET.Element(ET_ROOT, attrib={'v': '1'})
    expect_ok('to_pics', dev.to_pics, root, single_repeating=single)
    return root


def loads(root, ways=('text',)):
    """The device loaded back in several ways."""
    for way in ways:
        d = device.Device()
        if way == 'element':
            fn = lambda: d.from_pics(root[0])
        elif way == 'text':
            fn = lambda: d.from_pics(ET.fromstring(ET.tostring(root))[0])
        elif way == 'pretty':
            def fn():
                r = ET.fromstring(ET.tostring(root))
                rig.util.indent(r)
                d.from_pics(ET.fromstring(ET.tostring(r))[0])
        else:
            p = os.path.join(core.scratch_dir('pics'), 'doc.xml')
            with open(p, 'wb') as f:
                f.write(ET.tostring(root))
            fn = (lambda: d.from_pics(filename=p)) if way == 'file' else \
                (lambda: d.from_pics(filename='doc.xml', pathlist=rig.util.PathList([core.scratch_dir('pics')])))
        k, v = call(fn)
        if k != 'ok':
            raise Violation('the document written is refused (%s): %s: %s: %s' % (way, type(v).__name__, v, ET.tostring(root)[:300]), 'document refused')
        yield way, d


def judge_written(root, want, single, dev):
    """The document says what the device is."""
    e = root[0]
    eq('device element', e.tag, 'device')
    eq('models written', [(m.tag, int(m.get('id')), int(m.get('len')), int(m.get('index', '1'))) for m in e],
       [('model', d['id'], d['len'], d['index']) for d in want])
    for m, d in zip(e, want):
        n = len(d['blocks'])
        if single and n > 2:
            n = 2
        eq('blocks written', [(b.get('type', 'fixed'), int(b.get('index', '1'))) for b in m],
           [('fixed' if i == 0 else 'repeating', i or 1) for i in range(n)])
        for b, (vals, sfs) in zip(m, d['blocks']):
            eq('points written', sorted(p.get('id') for p in b), sorted(list(vals) + list(sfs)))
            for p in b:
                raw = vals[p.get('id')][0] if p.get('id') in vals else sfs[p.get('id')]
                eq('point %s marked unimplemented' % p.get('id'), p.get('impl', 'true') == 'false', raw is None)
                if isinstance(raw, int):
                    eq('text of point %s' % p.get('id'), int(p.text, 0), raw)
                elif isinstance(raw, float):
                    check(same_number(float(p.text), raw), 'text of point %s: %r for %r' % (p.get('id'), p.text, raw), 'text')
                else:
                    eq('text of point %s' % p.get('id'), p.text, raw)


def first_block_everywhere(want):
    out = []
    for d in want:
        d = dict(d)
        bl = d['blocks']
        if len(bl) > 2:
            vals1, sfs1 = bl[1]
            new = []
            for i, (vals, sfs) in enumerate(bl):
                new.append((vals, sfs) if i == 0 else (vals1, sfs1))
            d['blocks'] = new
        out.append(d)
    return out


def both(chain, ways):
    want = content(chain)
    dev = scanned(chain)
    compare(dev, want, 'device read')
    n = 2
    root = element(dev, False)
    judge_written(root, want, False, dev)
    for way, d in loads(root, ways):
        compare(d, want, 'reloaded device', impl=True)
        for x, y in ((dev, d), (d, dev)):
            k, v = call(x.not_equal, y)
            check(k == 'ok' and not v, 'comparison of the device with the reloaded one: %r' % (v,), 'comparison')
        again = element(d, False)
        eq('document written again', ET.tostring(again), ET.tostring(root))
        n += 3
    root1 = element(dev, True)
    judge_written(root1, want, True, dev)
    for way, d in loads(root1, ways[:1]):
        compare(d, first_block_everywhere(want), 'device of the short document', impl=True)
        n += 1
    dev.close()
    return n


def sfix(b, p, n):
    return struct.pack('>h', 1) if p.type == 'sunssf' else None


# ---- documents written by hand

def point_xml(pid, v, style, impl=True):
    if not impl:
        return '<point id="%s" impl="false"/>' % pid
    if v is None:
        return '<point id="%s"/>' % pid
    if isinstance(v, int) and style == 'hex':
        v = ('-' if v < 0 else '') + hex(abs(v))
    return '<point id="%s">%s</point>' % (pid, escape(str(v)))


def num(n, style):
    return hex(n) if style == 'hex' else '00%d' % n if style == 'zeros' else str(n)


def families(tier):
    thorough = tier == 'thorough'

    def point_cases():
        for i, p in enumerate(ALL.fixed):
            if p.type == 'pad':
                continue
            for j in range(len(patterns(p))):
                yield [i, j]
        yield [None, None]

    def point_run(c):
        i, j = c

        def which(b, p, n):
            if i is None:
                return ref.unimpl(p.type, p.len)
            if p is ALL.fixed[i]:
                return patterns(p)[j]
            return struct.pack('>h', -1) if p.type == 'sunssf' else None
        n = both([(ALL.id, ALL.length(), ref.fill(ALL, 0, 3, which))], ('text', 'element', 'pretty', 'file', 'pathlist'))
        return Obs(steps=n, outcome=c)

    # every combination of 4 register values over the points of up to 3 repeating blocks
    CH = {'A': [b'\x80\0', b'\0\5', b'\xff\xfe', b'\0\0'], 'RSF': [b'\x80\0', b'\0\2', b'\xff\xff', b'\0\0'], 'B': [b'\xff\xff', b'\0\7', b'\1\0', b'\0\0'],
          'C': [b'\x80\0', b'\0\1', b'\xff\xff', b'\0\0'], 'G': [b'\xff' * 4, b'\0\0\0\5', b'\x80\0\0\0', bytes(4)],
          'SF': [b'\x80\0', b'\xff\xff', b'\0\3', b'\0\0'], 'N': [b'\xff\xff', b'\0\1', b'\0\2', b'\0\0'], 'S': [bytes(4), b' b\0\0', b'a  d', b'1 \0\0'],
          'F': [b'\x80\0', b'\0\5', b'\xff\xfb', b'\0\0']}

    def rep_cases():
        for reps in (0, 1, 2, 3):
            for sf in range(4):
                for blocks in itertools.product(range(4), repeat=2 * reps if reps < 3 or thorough else 3):
                    yield [reps, sf, list(blocks)]

    def rep_run(c):
        reps, sf, bl = c

        def which(b, p, n):
            if p.type == 'pad':
                return None
            if b == 0:
                return CH[p.id][sf if p.id == 'SF' else (sf + n) % 4]
            if len(bl) == 2 * reps:
                k = bl[2 * (b - 1)] if p.id in ('A', 'C', 'G') else bl[2 * (b - 1) + 1]
            else:
                k = bl[b - 1]
            return CH[p.id][k]
        n = both([(REP.id, REP.length(reps), ref.fill(REP, reps, 0, which))], ('text', 'pretty'))
        return Obs(steps=n, outcome=c)

    KINDS = [(REP, 0), (REP, 2), (FIX, 0), (COMMON, 0), ('legacy', 0), ('unknown', 0), (ONLY, 2), (ALL, 0)]

    def chain_of(kinds):
        out = []
        for i, k in enumerate(kinds):
            m, reps = KINDS[k]
            if m == 'unknown':
                out.append((UNKNOWN, 3, [7, 8, 9]))
            elif m == 'legacy':
                out.append((1, 65, ref.fill(COMMON, 0, 50 + i)[:65]))
            else:
                out.append((m.id, m.length(reps), ref.fill(m, reps, 10 * i + 1, sfix)))
        return out

    def chain_cases():
        for n in range(0, 5 if thorough else 4):
            for ks in itertools.product(range(len(KINDS)), repeat=n):
                yield list(ks)

    def chain_run(c):
        n = both(chain_of(c), ('text', 'file') if len(c) < 3 else ('text',))
        return Obs(steps=n, outcome=c)

    def size_cases():
        for k in (0, 6):
            for n in list(range(4, 34)) + [99, 100, 101, 128, 256, 300]:
                yield [k, n, 1]
        for k in (1, 2, 4, 5, 6):
            for n in list(range(5, 14)) + [99, 100, 101]:
                yield [k, None, n]

    def size_run(c):
        k, reps, times = c
        ch = chain_of([k] * times)
        if reps is not None:
            m = KINDS[k][0]
            ch = [(m.id, m.length(reps), ref.fill(m, reps, 1, sfix))]
        n = both(ch, ('text', 'file'))
        return Obs(steps=n, outcome=c)

    # documents by hand: base address, model length, indexes, number styles, block forms
    def doc_cases():
        for addr in (None, '40000', '0', '0xC350', '050000'):
            for ln in ('none', 'dec', 'hex', 'zeros'):
                for idx in ('none', 'own', 'hex', 'odd'):
                    for reps in ((1,) if ln == 'none' else (0, 1, 2, 3)):
                        for form in ('all', 'each', 'hexeach', 'all-then-second', 'reversed', 'none', 'only-last'):
                            for style in ('dec', 'hex', 'zeros'):
                                yield [addr, ln, idx, reps, form, style]

    def doc_run(c):
        addr, ln, idx, reps, form, style = c
        outs = 0
        for sf, absent in itertools.product((-2, None, 1), ('no', 'impl', 'empty')):
            outs += one_doc(addr, ln, idx, reps, form, style, sf, absent)
        return Obs(steps=outs, execs=9, outcome=c)

    def one_doc(addr, ln, idx, reps, form, style, sf, absent):
        def block_vals(i):
            return {'A': -5 - i, 'RSF': i - 1, 'B': 70 + i, 'C': 3 * i + 1, 'G': 0x10000 + i}

        def block_xml(i, attr):
            v = block_vals(i)
            s = '<block type="repeating"%s>' % attr
            for pid in ('A', 'RSF', 'B', 'C', 'G'):
                if pid == 'C' and absent == 'impl':
                    s += point_xml(pid, v[pid], style, False)
                elif pid == 'C' and absent == 'empty':
                    s += point_xml(pid, None, style)
                else:
                    s += point_xml(pid, v[pid], style)
            return s + '</block>'
        blocks = {i: None for i in range(1, reps + 1)}
        xml = ''
        if form == 'all':
            xml = block_xml(9, '')
            blocks = {i: 9 for i in blocks}
        elif form in ('each', 'hexeach', 'reversed'):
            order = sorted(blocks, reverse=form == 'reversed')
            for i in order:
                xml += block_xml(i, ' index="%s"' % num(i, 'hex' if form == 'hexeach' else 'dec'))
                blocks[i] = i
        elif form == 'all-then-second':
            xml = block_xml(9, '')
            blocks = {i: 9 for i in blocks}
            if reps >= 2:
                xml += block_xml(2, ' index="2"')
                blocks[2] = 2
        elif form == 'only-last' and reps:
            xml = block_xml(reps, ' index="%d"' % reps)
            blocks[reps] = reps
        fixed = '<block>%s%s%s%s</block>' % (point_xml('SF', sf, style, sf is not None), point_xml('N', 17, style), point_xml('S', 'ab', style),
                                            point_xml('F', 250, style))
        length = REP.length(reps)
        want_idx = []
        doc = ''
        for k in range(2):
            a = ''
            if ln != 'none':
                a += ' len="%s"' % num(length, ln)
            w = k + 1
            if idx == 'own':
                a += ' index="%d"' % w
            elif idx == 'hex':
                a += ' index="0x%x"' % w
            elif idx == 'odd':
                w = 10 + k
                a += ' index="%d"' % w
            want_idx.append(w)
            doc += '<model id="%s"%s>%s%s</model>' % (num(REP.id, style), a, fixed, xml)
            if k == 0:
                doc += '<model id="%s"><block><point id="A">5</point></block></model>' % num(FIX.id, style)
        el = ET.fromstring('<device%s>%s</device>' % ('' if addr is None else ' addr="%s"' % addr, doc))
        d = device.Device()
        k, v = call(d.from_pics, el)
        if k != 'ok':
            raise Violation('document refused: %s: %s' % (v, ET.tostring(el)), 'document refused')
        base = 40000 if addr is None else int(addr, 16 if 'x' in addr else 10)
        eq('base address', d.base_addr, base)
        eq('models', [(m.id, m.len, m.index) for m in d.models_list], [(REP.id, length, want_idx[0]), (FIX.id, 2, 1), (REP.id, length, want_idx[1])])
        eq('address of the first model', int(d.models_list[0].addr), base + 4)
        eq('address of the last model', int(d.models_list[2].addr), base + 4 + length + 2 + 2 + 2)
        for m in (d.models_list[0], d.models_list[2]):
            eq('number of blocks', len(m.blocks), reps + 1)
            f = m.blocks[0].points
            eq('fixed N', f['N'].value, 17)
            eq('fixed S', f['S'].value, 'ab')
            check(ref.close(f['F'].value, ref.scaled(250, sf)), 'fixed F: %r' % f['F'].value, 'fixed value')
            for i, src in blocks.items():
                b = m.blocks[i]
                if src is None:
                    eq('untouched block', [b.points[x].value_base for x in 'ABCG'], [None] * 4)
                    continue
                v = block_vals(src)
                check(ref.close(b.points['A'].value, ref.scaled(v['A'], v['RSF'])), 'A of block %d: %r' % (i, b.points['A'].value), 'block value')
                check(ref.close(b.points['B'].value, ref.scaled(v['B'], sf)), 'B of block %d: %r' % (i, b.points['B'].value), 'block value')
                eq('G', b.points['G'].value, v['G'])
                if absent == 'no':
                    check(ref.close(b.points['C'].value, ref.scaled(v['C'], 2)), 'C of block %d: %r' % (i, b.points['C'].value), 'block value')
                    eq('C implemented', b.points['C'].impl, True)
                else:
                    eq('C', b.points['C'].value, None)
                    eq('C implemented', bool(b.points['C'].impl), absent == 'empty')
        return 3

    # malformed
    GOOD = ('<sunSpecPics v="1"><device v="1" addr="40000"><model id="64402" len="16" index="1"><block><point id="SF">1</point><point id="N">3</point></block>'
            '<block type="repeating" index="1"><point id="A">4</point></block></model><model id="64403"><block type="fixed"><point id="A">5</point></block></model></device></sunSpecPics>')
    GOOD = GOOD.replace('len="16"', 'len="%d"' % REP.length(2))
    EDITS = [('<sunSpecPics', '<other'), ('</sunSpecPics>', '</other>')]
    BAD = [
        ('root tag', GOOD.replace('sunSpecPics', 'pics')), ('no device', '<sunSpecPics v="1"></sunSpecPics>'), ('not xml', 'hello'), ('empty', ''),
        ('device tag', GOOD.replace('<device', '<dev').replace('</device', '</dev')),
        ('model tag', GOOD.replace('<model id="64403">', '<mod id="64403">').replace('</block></model></device>', '</block></mod></device>')),
        ('block tag', GOOD.replace('<block type="fixed">', '<blk>').replace('5</point></block>', '5</point></blk>')),
        ('point tag', GOOD.replace('<point id="A">5</point>', '<pt id="A">5</pt>')),
        ('truncated', GOOD[:-20]),
    ]
    for x in ('', 'x', '1.5', '--1', '0xZZ', '64403 64403', 'None'):
        BAD.append(('model id %r' % x, GOOD.replace('id="64403"', 'id="%s"' % x)))
        BAD.append(('model len %r' % x, GOOD.replace('len="%d"' % REP.length(2), 'len="%s"' % x)))
        BAD.append(('model index %r' % x, GOOD.replace('index="1"><block>', 'index="%s"><block>' % x)))
        BAD.append(('base address %r' % x, GOOD.replace('addr="40000"', 'addr="%s"' % x)))
        BAD.append(('block index %r' % x, GOOD.replace('type="repeating" index="1"', 'type="repeating" index="%s"' % x)))
        if x:
            BAD.append(('point value %r' % x, GOOD.replace('>4<', '>%s<' % x)))
    BAD.append(('model id missing', GOOD.replace(' id="64403"', '')))
    for x in ('0', '3', '-1', '99', '0x3'):
        BAD.append(('block index %r' % x, GOOD.replace('type="repeating" index="1"', 'type="repeating" index="%s"' % x)))
    for x in ('', 'Repeating', 'x', '1'):
        BAD.append(('block type %r' % x, GOOD.replace('type="repeating"', 'type="%s"' % x)))

    def bad_cases():
        for i in range(len(BAD)):
            for way in ('file', 'pathlist', 'element'):
                yield [i, way]

    def bad_run(c):
        i, way = c
        name, doc = BAD[i]
        d = device.Device()
        if way == 'element':
            try:
                root = ET.fromstring(doc)
                el = root[0]
            except (ET.ParseError, IndexError):
                return Obs(steps=0, outcome=c)
            if name == 'root tag':
                return Obs(steps=0, outcome=c)
            fn = lambda: d.from_pics(el)
        else:
            dd = core.scratch_dir('bad')
            with open(os.path.join(dd, 'bad.xml'), 'w') as f:
                f.write(doc)
            fn = (lambda: d.from_pics(filename=os.path.join(dd, 'bad.xml'))) if way == 'file' else \
                (lambda: d.from_pics(filename='bad.xml', pathlist=rig.util.PathList([dd])))
        expect_exc('malformed document (%s)' % name, rig.SErr, fn)
        g = device.Device()
        expect_ok('well-formed document', g.from_pics, ET.fromstring(GOOD)[0])
        return Obs(steps=2, outcome=c)

    return [
        Family('points', point_cases, point_run, setup, what='every point type over its boundary patterns'),
        Family('repeating', rep_cases, rep_run, setup, what='repeating blocks over all combinations of 4 register values'),
        Family('chains', chain_cases, chain_run, setup, what='chains of models, also unknown, repeated and legacy ones'),
        Family('sizes', size_cases, size_run, setup, what='models of up to 300 repeating blocks, and up to 101 instances of a model'),
        Family('documents', doc_cases, doc_run, setup, what='every combination of optional parts and number styles of a document'),
        Family('malformed', bad_cases, bad_run, setup, what='malformed documents'),
    ]
