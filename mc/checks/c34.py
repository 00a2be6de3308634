import gc
import itertools
import os
import re
import xml.etree.ElementTree as ET

from .. import core, ref, rig, wire
from ..core import Family, Obs, Violation, call, check, eq, expect_ok
from ..ref import P
from ..wire import SimDevice, world

import sunspec.core.data as data

PROP, LEVEL = 'C34', 'exploration'
TECHNIQUE = ('exhaustive enumeration of every cut, every single-byte damage, every damaged attribute, text and element and every declared encoding of every kind of document, '
             'through every way of loading it on the real loaders')
RULE = 'one evaluation per (kind of document, way of loading, damage); distinct by that and by the outcome'
BOUNDS = ('4 kinds of documents, 12 ways of loading; every cut; every byte removed or replaced by 9 others; every attribute and text replaced by 24 values; every element removed, renamed, '
          'doubled, emptied or moved; 30 declared encodings; thorough: also every pair of damaged attributes, texts and elements')
ASSUMPTIONS = ['a damaged document that is still a document of its kind may be refused or loaded; only what the damage does not touch is judged then',
               'which exception a data record that is not XML raises, and Model.load with a definition that loads but cannot be laid out, is not judged']

device, mbmap, util, client = rig.device, rig.mbmap, rig.util, rig.client
G = ref.Model(64911, [P('X', 'uint16'), P('Y', 'int16')], name='good')
D = ref.Model(64912, [P('A', 'int16', sf='SF', access='rw'), P('E', 'enum16', symbols=[('ON', 1), ('OFF', 2)]), P('S', 'string', 2), P('F', 'float32'), P('SF', 'sunssf')],
              [P('V', 'uint32', access='rw'), P('W', 'acc32')], name='main', block_name='phase', label='Main')
DOCS = {
    'pics': ('<sunSpecPics v="1"><device addr="40000" m="man"><model id="64911" len="2"><block><point id="X">7</point><point id="Y">-3</point></block></model>'
             '<model id="64912" len="15" index="1" x="1"><block><point id="A">250</point><point id="E">2</point><point id="S">abc</point><point id="F">1.5</point><point id="SF">-2</point></block>'
             '<block index="1" type="repeating"><point id="V">70000</point><point id="W">5</point></block>'
             '<block index="2" type="repeating"><point id="V">1</point></block></model></device></sunSpecPics>'),
    'smdx': D.xml(),
    'map': ('<mbmap addr="40000" func="holding"><!-- c --><regs offset="0" len="2" type="string" access="r">SunS</regs><regs offset="2" type="u16" access="r">64911</regs>'
            '<regs offset="3" len="1" type="s16">2</regs><regs offset="4" type="u32" access="rw">70001</regs><regs offset="6" len="1" type="hexstr" access="rw">ffff</regs>'
            '<regs offset="7" type="f32">1.5</regs><regs offset="9" type="s64" access="r">-5</regs></mbmap>'),
    'record': ('<sunSpecData v="1.0"><d lid="L" ns="mac" man="m" mod="n" sn="s" t="2020-01-02T03:04:05Z" if="i" cid="2" id="3"><m id="1" x="2" ns="n"><p id="A" index="1" sf="-2" t="2020-01-02T03:04:06Z">25</p>'
               '<p id="B">text</p></m><m id="101"/></d><d lid="M" t="1"><m id="2"><p id="C">1</p></m></d></sunSpecData>'),
}
FILES = {'pics': 'dev.xml', 'smdx': 'smdx_64912.xml', 'map': 'map.xml'}
WAYS = {'pics': ('file', 'list', 'module list'), 'smdx': ('type', 'model', 'scan', 'script', 'pics'), 'map': ('file', 'list', 'client'), 'record': ('text',)}
ERR = {'pics': rig.SErr, 'smdx': rig.SErr, 'map': rig.mbmap.ModbusMapError, 'record': Exception}
VALUES = [None, '', ' ', 'x', '-1', '0', '1', '1.5', '0x10', '1e3', '65536', '70000', '99999999999999999999', '\u00fc', '1 2', 'None', '[]', '08', 'nan', '-inf', 'type', '%s', '{}', '{0} %d 100% \\', 'id', 'True']
HUGE = '99999999999999999999'         # as a length: so many registers or blocks, not judged
BYTES = [b'<', b'>', b'&', b'"', b'/', b'\0', b'\xff', b' ', b'\x80']
ENCODINGS = ['nonsense', 'unknown-8', 'UTF-16', 'UTF-16LE', 'UTF-32', 'utf-7', 'US-ASCII', 'ISO-8859-1', 'cp1252', 'koi8-r', 'shift_jis', 'gb18030', 'big5', 'idna', 'punycode', 'hex', 'rot13', 'base64', 'zlib',
             'unicode_escape', 'raw_unicode_escape', 'undefined', 'mbcs', 'utf-8-sig', 'utf8', 'ebcdic-cp-us', 'cp037', '', 'a b', '\u00fc']
WHOLE = [b'', b' ', b'x', b'<', b'<a', b'<a>', b'<a/>', b'\0', b'\xef\xbb\xbf', b'\xff\xfe', b'PK\x03\x04', b'<?xml version="1.0"?>', b'<!DOCTYPE a>', b'{}', b'<!-- -->', b'&', b'<a>&b;</a>']


def structure(text):
    return list(re.finditer(r'<(/?)([\w]+)((?:\s+[\w]+="[^"]*")*)\s*(/?)>', text))


def elements(text):
    """(start, end, start tag end, end tag start, tag) of every element"""
    out, stack = [], []
    for m in structure(text):
        if m.group(4):
            out.append((m.start(), m.end(), m.end(), m.end(), m.group(2)))
        elif m.group(1):
            s = stack.pop()
            out.append((s.start(), m.end(), s.end(), m.start(), m.group(2)))
        else:
            stack.append(m)
    return sorted(out)


ATTRS = {k: [(m.start(), m.end(), m.group(1), m.start(2), m.end(2)) for m in re.finditer(r'\b(\w+)="([^"]*)"', t)] for k, t in DOCS.items()}
TEXTS = {k: [m.span(1) for m in re.finditer(r'>([^<>]+)<', t)] for k, t in DOCS.items()}
ELEMENTS = {k: elements(t) for k, t in DOCS.items()}
EDITS = ('removed', 'renamed', 'doubled', 'emptied', 'other case', 'prefixed', 'stuffed', 'moved')


def edit(kind, d):
    """(start, end, replacement) of a damage of the text, or None"""
    t = DOCS[kind]
    how, i, j = d
    if how == 'attr':
        a, b, name, c, e = ATTRS[kind][i]
        if name == 'len' and VALUES[j] == HUGE:
            return None
        return (a, b, '' if VALUES[j] is None else '%s="%s"' % (name, VALUES[j]))
    if how == 'name':
        a, b, name, c, e = ATTRS[kind][i]
        return (a, a + len(name), (name + 'x', name.upper(), 'z')[j])
    if how == 'text':
        a, b = TEXTS[kind][i]
        return (a, b, VALUES[j] or '')
    a, b, c, e, tag = ELEMENTS[kind][i]
    what = EDITS[j]
    if what == 'removed':
        return (a, b, '')
    if what in ('renamed', 'other case', 'prefixed'):
        new = {'renamed': 'zzz', 'other case': tag.swapcase(), 'prefixed': 'x' + tag}[what]
        w = t[a:b]
        w = '<' + new + w[1 + len(tag):]
        if w.endswith('</%s>' % tag):
            w = w[:-len(tag) - 1] + new + '>'
        return (a, b, w)
    if what == 'doubled':
        return (a, b, t[a:b] * 2)
    if what == 'emptied':
        return (c, e, '')
    if what == 'stuffed':
        return (e, e, '<zzz id="1"><y/></zzz>')
    nxt = [x for x in ELEMENTS[kind] if x[0] == b]
    return (a, nxt[0][1], t[b:nxt[0][1]] + t[a:b]) if nxt else None


def apply(kind, d):
    """The damaged document as bytes, or None"""
    t = DOCS[kind]
    how = d[0]
    if how == 'whole':
        return WHOLE[d[1]]
    if how == 'cut':
        return t.encode()[:d[1]]
    if how == 'tail':
        return t.encode()[d[1]:]
    if how == 'byte':
        b = t.encode()
        return b[:d[1]] + (BYTES[d[2]] if d[2] is not None else b'') + b[d[1] + 1:]
    if how == 'declared':
        return ('<?xml version="1.0" encoding="%s"?>' % ENCODINGS[d[1]] + t).encode()
    edits = []
    for x in (d[1], d[2]) if how == 'two' else (d,):
        e = edit(kind, x)
        if e is None:
            return None
        edits.append(e)
    edits.sort(reverse=True)
    if len(edits) == 2 and edits[1][1] > edits[0][0]:
        return None
    for a, b, r in edits:
        t = t[:a] + r + t[b:]
    return t.encode()


dirs = {}


def setup():
    for k in ('cwd', 'defs', 'list'):
        dirs[k] = core.scratch_dir('c34%s' % k)
        for n in os.listdir(dirs[k]):
            os.unlink(os.path.join(dirs[k], n))
    for m in (G, D):
        m.write(dirs['defs'])
    os.chdir(dirs['cwd'])
    gc.disable()


CHAIN = [(G.id, 2, [9, 8]), (D.id, 15, ref.fill(D, 2, 1, lambda b, p, n: ref.encode('sunssf', -2) if p.type == 'sunssf' else None)), (G.id, 2, [6, 5])]


def put(where, name, b):
    p = os.path.join(dirs[where], name)
    with open(p, 'wb') as f:
        f.write(b)
    return p


def load(kind, way, b):
    """What loading gives: {part: value}; parts are what a damage may not touch unless it is there"""
    if kind == 'record':
        r = data.SunSpecData()
        r.from_xml(data_record=b)
        return {(i, j, k): (p.point_id, p.value, p.sf, p.index, p.time) for i, d in enumerate(r.device_data) for j, m in enumerate(d.model_data) for k, p in enumerate(m.point_data)}
    if kind == 'map':
        if way == 'client':
            p = put('list', FILES[kind], b)
            c = client.ClientDevice(client.MAPPED, 1, name=p)
            m = c.modbus_device.modbus_map
            c.close()
        else:
            p = put('cwd' if way == 'file' else 'list', FILES[kind], b)
            try:
                m = mbmap.ModbusMap()
                m.from_xml(FILES[kind], util.PathList([dirs['list']]) if way == 'list' else None)
            finally:
                os.unlink(p)
        return {'base': (m.base_addr, m.func), 'regs': [(r.offset, r.count, r.data, r.access) for r in m.regs]}
    device.file_pathlist = pl = util.PathList([dirs['defs']])
    device.model_types.clear()
    try:
        if kind == 'pics':
            d = device.Device()
            p = put('cwd' if way == 'file' else 'list' if way == 'list' else 'defs', FILES[kind], b)
            try:
                d.from_pics(filename=FILES[kind], pathlist=util.PathList([dirs['list']]) if way == 'list' else None)
            finally:
                os.unlink(p)
            check(device.file_pathlist is pl, 'the module path list changed', 'module path list')
            return {(i, j, k): p.value_base for i, m in enumerate(d.models_list) for j, bl in enumerate(m.blocks) for k, p in bl.points.items() if p.value_base is not None}
        p = put('defs', FILES[kind], b)
        try:
            if way == 'type':
                t = device.model_type_get(D.id)
                return {(n, p.id): (p.type, p.offset, p.len, p.sf, p.access, [(s.id, s.value) for s in p.symbols]) for n, bl in enumerate((t.fixed_block, t.repeating_block)) if bl
                        for p in bl.points_list}
            if way == 'model':
                m = device.Model(device.Device(), D.id, 40004, 15)
                m.load()
                return {(n, p): (x.point_type.type, x.addr, x.point_type.len) for n, bl in enumerate(m.blocks) for p, x in bl.points.items()}
            if way == 'pics':
                # a device document that needs the definition
                d = device.Device()
                d.from_pics(element=ET.fromstring(DOCS['pics'])[0])
                eq('the model next to it', [(x.point_type.id, x.value) for x in d.models_list[0].blocks[0].points_list], [('X', 7), ('Y', -3)])
                return {(n, p): (x.point_type.type, x.addr, x.point_type.len) for n, bl in enumerate(d.models_list[1].blocks) for p, x in bl.points.items()}
            if way == 'script':
                args = rig.fresh(SimDevice(ref.image(40000, CHAIN)), 'tcp')
                k, s = call(client.SunSpecClientDevice, client.TCP, 1, **args)
                if k != 'ok':
                    raise Violation('scripting device, one definition damaged (%r): %r' % (b, s), 'scan with a damaged definition')
                w = s['good'][1:]
                expect_ok('read of the models with a good definition', lambda: [x.read() for x in w])
                eq('the models next to it', [(x['X'], x['Y']) for x in w], [(9, 8), (6, 5)])
                m = s.device.models_list[1]
                s.close()
                if m.load_error is not None:
                    raise rig.SErr(m.load_error)
                return {(n, p): (x.point_type.type, x.addr, x.point_type.len) for n, bl in enumerate(m.blocks) for p, x in bl.points.items()}
            # a device that has this model, and others next to it
            c = rig.client_device(SimDevice(ref.image(40000, CHAIN)), 'tcp')
            k, v = call(c.scan)
            if k != 'ok':
                raise Violation('scan of a device, one definition damaged (%r): %r' % (b, v), 'scan with a damaged definition')
            eq('models of the scan with a damaged definition', [(m.id, m.len, m.index) for m in c.models_list], [(G.id, 2, 1), (D.id, 15, 1), (G.id, 2, 2)])
            expect_ok('read of the models with a good definition', lambda: [m.read_points() for m in (c.models_list[0], c.models_list[2])])
            for i, want in ((0, (9, 8)), (2, (6, 5))):
                m = c.models_list[i]
                eq('the models next to it', (m.load_error, m.points['X'].value, m.points['Y'].value), (None,) + want)
            m = c.models_list[1]
            if m.load_error is not None:
                check(isinstance(m.load_error, str) and m.load_error, 'load error %r' % (m.load_error,), 'load error')
                raise rig.SErr(m.load_error)
            c.close()
            return {(n, p): (x.point_type.type, x.addr, x.point_type.len) for n, bl in enumerate(m.blocks) for p, x in bl.points.items()}
        finally:
            D.write(dirs['defs'])
    finally:
        device.file_pathlist = None


good = {}


def reference(kind, way):
    if (kind, way) not in good:
        k, v = call(load, kind, way, DOCS[kind].encode())
        if k != 'ok':
            raise Violation('%s by %s: %s: %s' % (kind, way, type(v).__name__, v), 'good document refused')
        check(v, 'nothing loaded', 'nothing loaded')
        good[kind, way] = v
    return good[kind, way]


def parts(kind):
    """(start, end) of an element -> key of the part"""
    if kind in parts_memo:
        return parts_memo[kind]
    out = {}
    root = DOCS[kind]
    count = {}
    stack = []
    outer = {'pics': ('model', 'block', 'point'), 'record': ('d', 'm', 'p'), 'smdx': ('block', 'point')}.get(kind)
    if outer:
        pos = [-1] * len(outer)
        for a, b, c, e, tag in ELEMENTS[kind]:
            if tag in outer and not (kind == 'smdx' and a > root.index('<strings')):
                n = outer.index(tag)
                pos[n] += 1
                pos[n + 1:] = [-1] * (len(outer) - n - 1)
                if n == len(outer) - 1:
                    key = tuple(pos)
                    if kind in ('pics', 'smdx'):
                        key = key[:-1] + (re.search(r'id="(\w+)"', root[a:c]).group(1),)
                    out[a, b] = key
    parts_memo[kind] = out
    return out


parts_memo = {}


def judge(kind, way, d, b):
    want = reference(kind, way)
    fds = len(os.listdir('/proc/self/fd'))
    try:
        ET.fromstring(b)
        xml = True
    except Exception:
        xml = False
    err = {'client': rig.CErr, 'model': Exception}.get(way, ERR[kind])
    outs = []
    for _ in range(2):
        k, v = call(load, kind, way, b)
        if isinstance(v, Violation):
            raise v
        what = '%s by %s, damage %r: %r' % (kind, way, d, b)
        if k == 'ok':
            check(xml, '%s: loaded, but is not XML' % what, 'not XML')
            if d[0] == 'elem' and EDITS[d[2]] in ('renamed', 'other case', 'prefixed') and kind in ('pics', 'record') and not any(
                    ELEMENTS[kind][d[1]][4] == x for x in ()):
                raise Violation('%s: loaded, but has an element of no such document' % what, 'unknown element')
            e = edit(kind, d) if d[0] in ('attr', 'text') else None
            if e and not (d[0] == 'attr' and ATTRS[kind][d[1]][2] in ('id', 'offset', 'len', 'type')):
                hit = [key for (s, t), key in parts(kind).items() if s < e[0] < t]
                if hit:
                    for key in want:
                        if key != hit[0]:
                            check(key in v and core.same(v[key], want[key]), '%s: %r becomes %r, was %r' % (what, key, v.get(key), want[key]), 'damage spreads')
        else:
            check(isinstance(v, err), '%s: raises %s: %s' % (what, type(v).__name__, v), 'error type')
        outs.append((k, sorted(map(str, v.items())) if k == 'ok' else type(v).__name__))
    eq('%s by %s, damage %r: loaded again' % (kind, way, d), outs[1], outs[0])
    eq('files open after %r' % (d,), len(os.listdir('/proc/self/fd')), fds)
    k, v = call(load, kind, way, DOCS[kind].encode())
    check(k == 'ok' and core.same(v, want), '%s by %s after damage %r: the good document gives %r, before %r' % (kind, way, d, v, want), 'good document afterwards')
    return outs[0]


def families(tier):
    def kinds():
        return [(k, w) for k in DOCS for w in WAYS[k]]

    def single(kind):
        for i in range(len(ATTRS[kind])):
            for j in range(len(VALUES)):
                yield ['attr', i, j]
            for j in range(3):
                yield ['name', i, j]
        for i in range(len(TEXTS[kind])):
            for j in range(len(VALUES)):
                yield ['text', i, j]
        for i in range(len(ELEMENTS[kind])):
            for j in range(len(EDITS)):
                yield ['elem', i, j]

    def byte_cases():
        for k, w in kinds():
            for i in range(len(DOCS[k].encode())):
                yield [k, w, i]

    def byte_run(c):
        kind, way, i = c
        outs = []
        for d in [['cut', i], ['tail', i]] + [['byte', i, j] for j in [None] + list(range(len(BYTES)))]:
            if d == ['tail', 0]:
                continue
            outs.append((c, d, judge(kind, way, d, apply(kind, d))[0]))
        return Obs(steps=3 * len(outs), execs=len(outs), outcomes=outs)

    def edit_cases():
        for k, w in kinds():
            for d in single(k):
                yield [k, w, d]
            for i in range(len(WHOLE)):
                yield [k, w, ['whole', i]]
            for i in range(len(ENCODINGS)):
                yield [k, w, ['declared', i]]

    def edit_run(c):
        kind, way, d = c
        b = apply(kind, d)
        if b is None:
            return Obs(steps=0, outcome=c)
        return Obs(steps=3, outcome=[c, judge(kind, way, d, b)[0]])

    def two_cases():
        for k, w in kinds():
            if w in ('file', 'type', 'text'):
                for d in single(k):
                    if d[2] in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 15):
                        yield [k, w, d]

    def two_run(c):
        kind, way, d = c
        outs = []
        for e in single(kind):
            if e[2] in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 15) and e > d:
                b = apply(kind, ['two', d, e])
                if b is not None:
                    outs.append((c, e, judge(kind, way, ['two', d, e], b)[0]))
        return Obs(steps=3 * len(outs), execs=len(outs), outcomes=outs)

    fams = [Family('edits', edit_cases, edit_run, setup, what='every damaged attribute, text and element, and every declared encoding'),
            Family('bytes', byte_cases, byte_run, setup, what='every cut and every damaged byte')]
    if tier == 'thorough':
        fams.append(Family('pairs', two_cases, two_run, setup, what='every pair of damaged attributes, texts and elements'))
    return fams
