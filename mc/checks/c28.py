import builtins
import contextlib
import io
import itertools
import os
import shutil
import xml.etree.ElementTree as ET
import zipfile

from .. import core, ref, rig, wire, xmlforms
from ..core import Family, Obs, Violation, call, check, eq, expect_ok
from ..wire import SimDevice, world
from . import c20

import sunspec.core.data as data

PROP, LEVEL = 'C28', 'exploration'
TECHNIQUE = ('exhaustive enumeration of document kinds x texts x XML encodings x line ends x places x preferred encodings of the process, through the real '
             'loaders; every combination must give the values of the plain document')
RULE = 'one evaluation per combination; distinct by combination'
BOUNDS = ('5 kinds of documents (definitions, PICS, maps, data records, hex dumps), 4 texts, 14 encodings, 3 kinds of line ends, 0-2 line ends after the document, every place such a document is '
          'looked for (path list, module path list, zip file, current directory, absolute name, element, text), 6 preferred encodings; 11 kinds of names x 7 forms of paths; 29 ways of writing 4 richer documents x 4 insertions at every place, and pairs of insertions at every two places')
ASSUMPTIONS = ['documents whose bytes do not agree with the encoding they declare are not judged']

device, mbmap, util, client = rig.device, rig.mbmap, rig.util, rig.client
MID = 64811
TEXTS = ['plain', 'caf\u00e9 \u00b0C \u00ff', 'caf\u00e9 \u20ac', 'caf\u00e9 \u20ac \u0394\u4e16']
NL = ['\n', '\r\n', '\r']
# name, declaration, encoder; None where the text cannot be written in it
BOM8 = b'\xef\xbb\xbf'


def refs(s):
    return s.encode('ascii', 'xmlcharrefreplace')


def enc(codec, bom=b''):
    def fn(s):
        try:
            return bom + s.encode(codec)
        except UnicodeEncodeError:
            return None
    return fn


ENC = [('UTF-8, undeclared', '', enc('utf-8')), ('UTF-8', '<?xml version="1.0" encoding="UTF-8"?>', enc('utf-8')),
       ('utf-8, version only', '<?xml version="1.0"?>', enc('utf-8')), ('UTF-8 with mark', '', enc('utf-8', BOM8)),
       ('UTF-8 declared with mark', "<?xml version='1.0' encoding='utf-8' standalone='yes'?>", enc('utf-8', BOM8)),
       ('UTF-16 LE', '<?xml version="1.0" encoding="UTF-16"?>', enc('utf-16-le', b'\xff\xfe')),
       ('UTF-16 BE', '<?xml version="1.0" encoding="UTF-16"?>', enc('utf-16-be', b'\xfe\xff')), ('UTF-16, undeclared', '', enc('utf-16-le', b'\xff\xfe')),
       ('ISO-8859-1', '<?xml version="1.0" encoding="ISO-8859-1"?>', enc('latin-1')), ('iso-8859-15', '<?xml version="1.0" encoding="iso-8859-15"?>', enc('iso-8859-15')),
       ('windows-1252', '<?xml version="1.0" encoding="windows-1252"?>', enc('cp1252')),
       ('US-ASCII', '<?xml version="1.0" encoding="US-ASCII"?>', refs), ('references, undeclared', '', refs),
       ('references in ISO-8859-1', '<?xml version="1.0" encoding="ISO-8859-1"?>', refs)]
PREF = [None, 'ascii', 'latin-1', 'cp1252', 'utf-8', 'shift_jis']

KINDS = {
    'smdx': '''<sunSpecModels v="1">
<!-- %(c)s -->
<model id="64811" len="3" name="m"><block len="3">
<point id="A" offset="0" type="enum16" units="%(t)s"><symbol id="S">1</symbol></point>
<point id="B" offset="1" type="string" len="2"/>
</block></model>
<strings id="64811" locale="en"><model><label>%(t)s</label><description>%(t)s!</description></model><point id="A"><label>%(t)s A</label><notes>%(t)s N</notes><symbol id="S"><label>%(t)s S</label></symbol></point></strings>
</sunSpecModels>''',
    'pics': '''<sunSpecPics v="1">
<!-- %(c)s -->
<device addr="40000"><model id="64812" len="14"><block>
<point id="A">7</point>
<point id="T">%(t)s</point>
</block></model></device></sunSpecPics>''',
    'map': '''<mbmap addr="40000" func="holding" lid="%(t)s">
<!-- %(c)s -->
<regs offset="0" len="2" type="string" access="r">SunS</regs>
<regs offset="2" len="1" type="u16" access="r">64812</regs><regs offset="3" len="1" type="u16">14</regs>
<regs offset="4" len="1" type="u16">7</regs>
<regs offset="5" len="13" type="string">%(s)s</regs>
<regs offset="18" len="1" type="u16">65535</regs><regs offset="19" len="1" type="u16">0</regs>
</mbmap>''',
    'data': '''<sunSpecData v="1">
<!-- %(c)s -->
<d man="%(t)s" sn="%(t)s"><m id="1" ns="%(t)s"><p id="Md">%(t)s</p></m></d></sunSpecData>''',
}
PLACES = {'smdx': ['module list', 'module zip', 'cwd'], 'pics': ['list', 'zip', 'module list', 'module zip', 'cwd', 'absolute', 'element'],
          'map': ['list', 'zip', 'cwd', 'absolute', 'element', 'device', 'device list', 'scripting device'], 'data': ['text', 'bytes', 'element']}


@contextlib.contextmanager
def preferred(codec):
    """Text files opened without naming an encoding are read in this one, as in a process of such a locale."""
    if codec is None:
        yield
        return
    old = builtins.open, io.open

    def fn(file, mode='r', buffering=-1, encoding=None, *a, **k):
        if 'b' not in mode and encoding in (None, 'locale'):
            encoding = codec
        return old[0](file, mode, buffering, encoding, *a, **k)
    builtins.open = io.open = fn
    try:
        yield
    finally:
        builtins.open, io.open = old


def setup():
    d = core.scratch_dir('defs')
    RICHER.write(d)
    ref.Model(64812, [ref.P('A', 'uint16'), ref.P('T', 'string', 13)], name='pm').write(d)
    core.scratch_dir('empty')


# ---------------------------------------------------------------- other ways of writing the same XML

RICH = {
    'smdx': '''<sunSpecModels v="1">
  <model id="64811" len="9" name="rich &amp; wide">
    <block len="5"><point id="A" offset="0" type="int16" sf="A_SF" units="&lt;V&gt; 100%" mandatory="true"/><point id="A_SF" offset="1" type="sunssf"/>
      <point id="S" offset="2" type="string" len="2" access="rw"><label>inline 'S' "s"</label></point>
      <point id="E" offset="4" type="enum16"><symbol id="ON">10</symbol><symbol id="OFF">11<label>off</label></symbol></point></block>
    <block type="repeating" len="2" name="rep"><point id="R" offset="0" type="uint32" sf="-2"/></block>
  </model>
  <strings id="64811" locale="en">
    <model><label>The label</label><description>a &lt; b &amp; c</description><notes>n</notes></model>
    <point id="A"><label>Current A</label><description>d</description><notes>two
lines</notes></point>
    <point id="E"><label>E</label><symbol id="ON"><label>is on</label></symbol></point>
  </strings>
</sunSpecModels>''',
    'pics': '''<sunSpecPics v="1">
  <device addr="50000">
    <model id="64813" len="27"><block><point id="A" access="r">-12</point><point id="A_SF">-1</point><point id="S" access="rw">a &lt;b&gt; &amp; 'c'</point>
      <point id="E">10</point><point id="F" implemented="false"/><point id="I">3232235796</point><point id="B">305</point></block>
      <block type="repeating"><point id="R">17</point></block><block type="repeating" index="2"><point id="R">4000000000</point></block></model>
    <model id="64813" len="23" index="2"><block><point id="A">44</point></block></model>
  </device>
</sunSpecPics>''',
    'map': '''<mbmap addr="500" func="input" ns="n s" lid="l&amp;d" mapid="&quot;m&quot;" time="2020-01-01T00:00:00Z">
  <regs offset="3" len="4" type="string" access="r">Sun S &lt;</regs><regs type="u16" access="rw">64812</regs><regs type="s16">-14</regs><regs type="u32">305419896</regs>
  <regs type="s32">-2000000000</regs><regs offset="40" type="u64">1234567890123456789</regs><regs type="s64">-77</regs><regs type="f32">12.5</regs><regs type="f64">-1.25e3</regs>
  <regs len="3">0102 fe FF</regs><regs offset="90" len="1" type="hexstr">abcd</regs><regs type="u16"/><regs len="2" type="string"/>
</mbmap>''',
    'data': '''<sunSpecData v="1">
  <d lid="logger &amp; 1" ns="name space" man="m" mod="&lt;mod&gt;" sn="s 'n'" id="i" if="f" t="2020-01-01T00:00:00Z" cid="c">
    <m id="1" x="2" ns="q"><p id="A" index="3" sf="-2" t="2020-01-01T00:00:01Z">-12</p><p id="B">two  words &lt;x&gt; &amp; more</p><p id="C"/></m>
    <m id="103"><p id="W">12.5</p></m>
  </d>
  <d man="other"><m id="2"><p id="X">7</p></m></d>
</sunSpecData>''',
}
RICHER = ref.Model(64813, [ref.P('A', 'int16', sf='A_SF'), ref.P('A_SF', 'sunssf'), ref.P('S', 'string', 10), ref.P('E', 'enum16'), ref.P('F', 'float32'), ref.P('I', 'ipaddr'),
                           ref.P('B', 'bitfield32')], [ref.P('R', 'uint32')], name='richer')


def understood(kind, how, xml):
    """What the library makes of the document."""
    rig.use_dir(core.scratch_dir('defs'))
    d = core.scratch_dir('forms')
    name = 'smdx_%05d.xml' % MID if kind == 'smdx' else 'doc.xml'
    if how == 'file':
        with open(os.path.join(d, name), 'w', encoding='utf-8') as f:
            f.write(xml)
        paths = util.PathList([core.scratch_dir('empty'), d])
    if kind == 'smdx':
        if how == 'file':
            device.file_pathlist = paths
            t = device.model_type_get(MID)
        else:
            t = device.ModelType()
            t.from_smdx(ET.fromstring(xml))
        return c20.shown(t, 'definition')
    if kind == 'pics':
        x = device.Device()
        x.from_pics(filename=name, pathlist=paths) if how == 'file' else x.from_pics(ET.fromstring(xml).find('device'))
        return [x.base_addr] + [(m.id, m.len, m.index, m.addr, m.load_error, [
            (b.type, b.index, [(p.point_type.id, p.value_base, p.value_sf, p.impl) for p in b.points_list + sorted(b.points_sf.values(), key=lambda p: p.point_type.id)])
            for b in m.blocks]) for m in x.models_list]
    if kind == 'map':
        m = mbmap.ModbusMap()
        m.from_xml(name, paths) if how == 'file' else m.from_xml(element=ET.fromstring(xml))
        return [m.base_addr, m.func, m.ns, m.lid, m.mapid, m.time, [(r.offset, r.count, bytes(r.data), r.access) for r in m.regs]]
    r = data.SunSpecData(data_record=xml) if how == 'file' else data.SunSpecData(element=ET.fromstring(xml))
    return [r.version] + [(d.logger_id, d.namespace, d.device_id, d.ifc, d.man, d.mod, d.sn, d.timestamp, d.cid, [(m.model_id, m.namespace, m.index, [
        (p.point_id, p.value, p.index, p.sf, p.time) for p in m.point_data]) for m in d.model_data]) for d in r.device_data]


FORMS = ['absolute', 'with a separator at the end', 'relative', 'relative with a dot', 'with dots inside', 'below a folder with a space', 'below a folder called x.zip.d']


def place(kind, where, name, raw, form=0):
    """Put the document there. Returns (path list, absolute name, module path list)."""
    d = core.scratch_dir('doc')
    cwd = core.scratch_dir('cwd')
    for x in (d, cwd):
        for f in os.listdir(x):
            f = os.path.join(x, f)
            shutil.rmtree(f) if os.path.isdir(f) else os.unlink(f)
    os.chdir(cwd)
    nothing = core.scratch_dir('empty')
    d += {5: '/with space', 6: '/x.zip.d'}.get(form, '')
    os.makedirs(d, exist_ok=True)
    if 'zip' in where:
        given = os.path.join(d, 'docs.zip')
        with zipfile.ZipFile(given, 'w') as f:
            f.writestr('in/' + name, raw)
        given = os.path.join(given, 'in')
    else:
        given = d
        file = os.path.join(cwd if where == 'cwd' else d, name)
        os.makedirs(os.path.dirname(file), exist_ok=True)
        with open(file, 'wb') as f:
            f.write(raw)
    up = os.path.relpath(given, cwd)
    given = [given, given + '/', up, './' + up, os.path.dirname(d) + '/./' + given[len(os.path.dirname(d)) + 1:], given, given][form]
    return [nothing, given]


def families(tier):
    def cases():
        for kind in KINDS:
            for t, e, nl, tail, p, w in itertools.product(range(len(TEXTS)), range(len(ENC)), range(3), range(3), range(len(PREF)), PLACES[kind]):
                if w in ('element', 'text', 'bytes') and p:
                    continue          # nothing is opened
                yield [kind, t, e, nl, tail, p, w]

    def run(c):
        kind, t, e, nl, tail, p, where = c
        name, decl, encode = ENC[e]
        text = TEXTS[t]
        if kind == 'pics':
            text = TEXTS[min(t, 1)]           # string points hold one byte per character
        doc = decl + KINDS[kind] % {'c': TEXTS[t], 't': text, 's': TEXTS[min(t, 1)]}
        raw = encode((doc + '\n' * tail).replace('\n', NL[nl]))
        if raw is None:
            return Obs(steps=0, execs=0, outcomes=())
        load(kind, where, '%s in %s, %d line ends after it, found in %s, preferred encoding %s' % (kind, name, tail, where, PREF[p]), PREF[p], raw, doc, text, t)
        return Obs(outcome=c)

    def load(kind, where, what, pref, raw, doc, text, t, given='doc.xml', form=0):
        rig.use_dir(core.scratch_dir('defs'))
        defs = device.file_pathlist
        try:
            with preferred(pref):
                fname = 'smdx_%05d.xml' % MID if kind == 'smdx' else given
                paths = place(kind, where, fname, raw, form) if where not in ('element', 'text', 'bytes') else None
                {'smdx': smdx, 'pics': pics, 'map': modbus_map, 'data': record}[kind](what, where, fname, paths, raw, doc, text, TEXTS[min(t, 1)], defs)
        finally:
            device.file_pathlist = None

    NAMES = ['doc.xml', 'sub/doc.xml', 'sub/sub/doc.xml', './doc.xml', 'a b.xml', 'caf\u00e9.xml', 'doc', 'doc.XML', 'sub.xml/doc.txt', 'doc%20.xml', '~doc.xml']

    def name_cases():
        for kind in KINDS:
            for w in PLACES[kind]:
                if w in ('element', 'text', 'bytes'):
                    continue
                for n in range(len(NAMES) if kind != 'smdx' else 1):
                    if NAMES[n].startswith('.') and 'zip' in w:
                        continue          # members have no such names
                    for form in range(len(FORMS) if 'cwd' not in w else 1):
                        for p in range(len(PREF)):
                            yield [kind, w, n, form, p]

    def name_run(c):
        kind, w, n, form, p = c
        doc = KINDS[kind] % {'c': '', 't': 'plain', 's': 'plain'}
        load(kind, w, '%s called %s in %s, path given as %s, preferred encoding %s' % (kind, NAMES[n], w, FORMS[form], PREF[p]), PREF[p], doc.encode(), doc, 'plain', 0,
             NAMES[n], form)
        return Obs(outcome=c)

    def smdx(what, where, fname, paths, raw, doc, text, s, defs):
        device.file_pathlist = util.PathList(paths) if where.startswith('module') else None
        m = expect_ok(what, device.model_type_get, MID)
        a = m.fixed_block.points['A']
        eq(what + ': texts', (m.label, m.description, a.units, a.label, a.notes, a.symbols[0].label), (text, text + '!', text, text + ' A', text + ' N', text + ' S'))
        eq(what + ': points', [(x.id, x.type, int(x.offset), int(x.len)) for x in m.fixed_block.points_list], [('A', 'enum16', 0, 1), ('B', 'string', 1, 2)])

    def pics(what, where, fname, paths, raw, doc, text, s, defs):
        d = device.Device()
        if where == 'element':
            fn = lambda: d.from_pics(ET.fromstring(raw).find('device'))
        elif where in ('list', 'zip'):
            fn = lambda: d.from_pics(filename=fname, pathlist=util.PathList(paths))
        elif where.startswith('module'):
            device.file_pathlist = util.PathList(paths + defs.path)
            fn = lambda: d.from_pics(filename=fname)
        elif where == 'cwd':
            fn = lambda: d.from_pics(None, fname)
        else:
            fn = lambda: d.from_pics(None, os.path.join(paths[1], fname))
        expect_ok(what, fn)
        eq(what + ': models', [(int(m.id), m.len) for m in d.models_list], [(64812, 14)])
        m = d.models_list[0]
        eq(what + ': values', (m.points['A'].value, m.points['T'].value), (7, text))

    def modbus_map(what, where, fname, paths, raw, doc, text, s, defs):
        want = b'SunS' + bytes([0xfd, 0x2c, 0, 14, 0, 7]) + s.encode('latin-1').ljust(26, b'\0') + b'\xff\xff\0\0'
        if 'device' in where:
            world.reset()
            cls = client.SunSpecClientDevice if where == 'scripting device' else client.ClientDevice
            kw = {'name': os.path.join(paths[1], fname)} if where != 'device list' else {'name': fname, 'pathlist': util.PathList(paths)}
            dev = expect_ok(what, cls, client.MAPPED, 1, **kw)
            dev = getattr(dev, 'device', dev)
            eq(what + ': registers', bytes(dev.read(40000, 20)), want)
            expect_ok(what, dev.scan)
            m = dev.models_list[0]
            m.read_points()
            eq(what + ': values', (m.points['A'].value, m.points['T'].value), (7, s))
            return
        m = mbmap.ModbusMap()
        fn = {'list': lambda: m.from_xml(fname, util.PathList(paths)), 'cwd': lambda: m.from_xml(fname), 'element': lambda: m.from_xml(element=ET.fromstring(raw)),
              'absolute': lambda: m.from_xml(os.path.join(paths[1], fname))}
        fn['zip'] = fn['list']
        expect_ok(what, fn[where])
        eq(what + ': registers', bytes(m.read(40000, 20)), want)
        eq(what + ': identification', m.lid, text)

    def record(what, where, fname, paths, raw, doc, text, s, defs):
        if where == 'element':
            r = expect_ok(what, data.SunSpecData, element=ET.fromstring(raw))
        else:
            r = expect_ok(what, data.SunSpecData, data_record=raw if where == 'bytes' else doc)
        d = r.device_data[0]
        m = d.model_data[0]
        eq(what + ': content', (d.man, d.sn, m.namespace, m.point_data[0].value), (text,) * 4)

    # hex dumps
    COMMENTS = [b'# plain', '# caf\u00e9 \u20ac'.encode('utf-8'), b'# caf\xe9', b'#', b'#\x81\x8d\xff', None]

    def hex_cases():
        for a, b, nl, p, w in itertools.product(range(len(COMMENTS)), range(len(COMMENTS)), range(2), range(len(PREF)), ('cwd', 'absolute')):
            yield [a, b, nl, p, w]

    def hex_run(c):
        a, b, nl, p, w = c
        rows = [COMMENTS[a], b'00 01 fe FF', b'', COMMENTS[b], b'7 8', b'  53 6e']
        raw = NL[nl].encode().join(r for r in rows if r is not None)
        paths = place('hex', w, 'dump.txt', raw)
        m = mbmap.ModbusMap()
        with preferred(PREF[p]):
            expect_ok('hex dump %r with preferred encoding %s' % (raw, PREF[p]), m.from_hex, 'dump.txt' if w == 'cwd' else os.path.join(paths[1], 'dump.txt'))
        eq('registers of hex dump %r' % raw, bytes(m.read(40000, 4)), bytes([0, 1, 0xfe, 0xff, 7, 8, 0x53, 0x6e]))
        return Obs(outcome=c)

    def form_cases():
        for kind in RICH:
            for how in ('file', 'element'):
                for style in xmlforms.STYLES:
                    for ins in [None] + list(xmlforms.INSERT):
                        yield [kind, how, style, ins]

    def written(kind, how, xml, want, what):
        try:
            k, got = call(understood, kind, how, xml)
        finally:
            device.file_pathlist = None
        if k != 'ok':
            raise Violation('%s: %s: %s; document %r' % (what, type(got).__name__, got, xml), 'document refused')
        eq(what, got, want)

    def form_run(c):
        kind, how, style, ins = c
        want = understood(kind, how, RICH[kind])
        check(len(repr(want)) > 200, 'plain document is not understood: %r' % (want,), 'content')
        text, n = xmlforms.write(RICH[kind], style)
        if ins is None:
            written(kind, how, text, want, '%s (%s) written with %s' % (kind, how, style))
            return Obs(outcome=c)
        places = [i for i in range(n) if ins != 'cdata' or 0 < i < n - 1]
        for i in places:
            text, n = xmlforms.write(RICH[kind], style, [(i, xmlforms.INSERT[ins])])
            written(kind, how, text, want, '%s (%s) written with %s and a %s at place %d' % (kind, how, style, ins, i))
        return Obs(steps=len(places), execs=len(places), outcomes=[(c, i) for i in places])

    def form2_cases():
        for kind in RICH:
            n = xmlforms.write(RICH[kind])[1]
            for i in range(n):
                for a in xmlforms.INSERT:
                    yield [kind, i, a]

    def form2_run(c):
        kind, i, a = c
        want = understood(kind, 'element', RICH[kind])
        n = xmlforms.write(RICH[kind])[1]
        outs = []
        for j in range(i + 1, n):
            for b in xmlforms.INSERT:
                if 'cdata' in (a, b) and (a == 'cdata' and i == 0 or b == 'cdata' and j == n - 1):
                    continue
                text, _ = xmlforms.write(RICH[kind], 'plain', [(i, xmlforms.INSERT[a]), (j, xmlforms.INSERT[b])])
                written(kind, 'element', text, want, '%s with a %s at place %d and a %s at place %d' % (kind, a, i, b, j))
                outs.append((c, j, b))
        return Obs(steps=len(outs), execs=len(outs), outcomes=outs)

    return [
        Family('two insertions', form2_cases, form2_run, setup, what='a comment, instruction or section at every pair of places'),
        Family('forms', form_cases, form_run, setup, what='every other way of writing the same XML; comments, instructions and sections at every place'),
        Family('documents', cases, run, setup, what='every kind of document in every encoding and place'),
        Family('names', name_cases, name_run, setup, what='every kind of document under every kind of name, in every form of path'),
        Family('hex dumps', hex_cases, hex_run, setup, what='hex dumps with comments in any encoding'),
    ]
