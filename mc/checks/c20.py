import itertools
import os
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape, quoteattr

from .. import core, ref, rig
from ..core import Family, Obs, Violation, call, check, eq, expect_exc, expect_ok

PROP, LEVEL = 'C20', 'exploration'
TECHNIQUE = ('exhaustive enumeration of definition documents (attribute combinations, structures, placements of texts and symbols) and of '
             'every single defect, through the real loader, against an independent reading of the document')
RULE = 'one evaluation per document; distinct by the document'
BOUNDS = ('all 21 types x declared length x access x mandatory x units x scale factor x block; all block structures with up to 2 points each; '
          'every subset of texts at every level; symbol sets over 4 points; every attribute removed or invalid; all 65536 model ids; texts of 56 shapes at 6 places')
ASSUMPTIONS = ['texts of points that exist in both blocks, symbols mentioned only in the strings section, definitions whose id is not that of '
               'their file name and non-canonical file names are not judged']

device = rig.device
import sunspec.core.smdx as smdx
import sunspec.core.suns as suns

MID = 64850
TYPES = dict(ref.TYPES)
for t in ('string', 'pad', 'sunssf'):
    TYPES.setdefault(t, 1)


# a document is {'id','len','name','blocks':[{'type','len','name','points':[{...}]}],'strings':[{'id','locale','model':{..},'points':[..]}]}

class Spelled(int):
    """A number with the way it is written."""

    def __new__(cls, n, text):
        self = int.__new__(cls, n)
        self.text = text
        return self

    def __str__(self):
        return self.text


def attrs(d, names):
    return ''.join(' %s=%s' % (n, quoteattr(str(d[n]))) for n in names if d.get(n) is not None)


def texts(d):
    return ''.join('<%s>%s</%s>' % (t, escape(d[t]), t) for t in d.get('order', ('label', 'description', 'notes')) if d.get(t) is not None)


def point_xml(p):
    s = '<point%s>' % attrs(p, ('id', 'offset', 'type', 'len', 'mandatory', 'access', 'units', 'sf'))
    for y in p.get('symbols', ()):
        s += '<symbol%s>%s%s</symbol>' % (attrs(y, ('id',)), '' if y.get('value') is None else y['value'], texts(y))
    return s + texts(p) + '</point>'


def doc_xml(d):
    s = '<model%s>' % attrs(d, ('id', 'len', 'name'))
    for b in d['blocks']:
        s += '<block%s>%s</block>' % (attrs(b, ('type', 'len', 'name')), ''.join(point_xml(p) for p in b['points']))
    sections = [s + '</model>']
    for st in d.get('strings', ()):
        s = '<strings%s>' % attrs(st, ('id', 'locale'))
        parts = ['<model>%s</model>' % texts(st['model'])] if st.get('model') is not None else []
        for p in st.get('points', ()):
            parts.append('<point id=%s>%s%s</point>' % (quoteattr(p['id']), texts(p), ''.join(
                '<symbol id=%s>%s</symbol>' % (quoteattr(y['id']), texts(y)) for y in p.get('symbols', ()))))
        if st.get('reversed'):
            parts.reverse()
        sections.append(s + ''.join(parts) + '</strings>')
    if d.get('first'):
        sections.append(sections.pop(0))
    return '<sunSpecModels v="1">%s</sunSpecModels>' % ''.join(sections)


TEXT = ('label', 'description', 'notes')


def expected(d):
    """What the loaded definition must show, read from the document structure."""
    def own(x):
        return {t: x.get(t) for t in TEXT}
    st = [x for x in d.get('strings', ()) if str(x['id']) == str(d['id'])]
    out = {'id': d['id'], 'len': d['len'], 'name': d['name'] if d.get('name') is not None else 'model_%d' % d['id'], 'blocks': {}}
    out.update({t: None for t in TEXT})
    for x in st:
        for t in TEXT:
            if (x.get('model') or {}).get(t) is not None:
                out[t] = x['model'][t]
    for b in d['blocks']:
        bt = b.get('type') or 'fixed'
        pts = []
        for p in b['points']:
            e = {'id': p['id'], 'offset': p['offset'], 'type': p['type'], 'len': p['len'] if p.get('len') is not None else TYPES[p['type']],
                 'access': p.get('access') or 'r', 'mandatory': p.get('mandatory') or 'false', 'units': p.get('units'), 'sf': p.get('sf'),
                 'symbols': [dict(own(y), id=y['id'], value=y['value']) for y in p.get('symbols', ())]}
            e.update(own(p))
            for x in st:
                for q in x.get('points', ()):
                    if q['id'] != p['id']:
                        continue
                    for t in TEXT:
                        if q.get(t) is not None:
                            e[t] = q[t]
                    for y in q.get('symbols', ()):
                        for z in e['symbols']:
                            if z['id'] == y['id']:
                                for t in TEXT:
                                    if y.get(t) is not None:
                                        z[t] = y[t]
            pts.append(e)
        out['blocks'][bt] = {'len': b['len'], 'name': b['name'] if b.get('name') is not None else bt, 'points': pts}
    out['blocks'].setdefault('fixed', {'len': 0, 'name': None, 'points': []})
    return out


def shown(mt, what):
    out = {'id': mt.id, 'len': mt.len, 'name': mt.name, 'blocks': {}}
    out.update({t: getattr(mt, t) for t in TEXT})
    for bt, b in (('fixed', mt.fixed_block), ('repeating', mt.repeating_block)):
        if b is None:
            continue
        check(b.type == {'fixed': suns.SUNS_BLOCK_FIXED, 'repeating': suns.SUNS_BLOCK_REPEATING}[bt], '%s: type of the %s block: %r' % (what, bt, b.type), 'block type')
        pts = []
        for p in b.points_list:
            check(b.points.get(p.id) is p, '%s: point %s in the list and by id differ' % (what, p.id), 'points by id')
            e = {a: getattr(p, a) for a in ('id', 'offset', 'len', 'units', 'sf') + TEXT}
            e['type'] = {v: k for k, v in TYPE_CONST.items()}.get(p.type)
            e['access'] = {suns.SUNS_ACCESS_R: 'r', suns.SUNS_ACCESS_RW: 'rw'}.get(p.access)
            e['mandatory'] = {suns.SUNS_MANDATORY_TRUE: 'true', suns.SUNS_MANDATORY_FALSE: 'false'}.get(p.mandatory)
            e['symbols'] = [dict({a: getattr(y, a) for a in ('id', 'value') + TEXT}) for y in p.symbols]
            pts.append(e)
        check(len(b.points) == len(pts), '%s: %d points by id, %d listed' % (what, len(b.points), len(pts)), 'points by id')
        out['blocks'][bt] = {'len': int(b.len), 'name': b.name, 'points': pts}
    return out


TYPE_CONST = {t: getattr(suns, 'SUNS_TYPE_' + t.upper()) for t in TYPES}


def load(xml, mid=MID):
    d = core.scratch_dir('defs')
    with open(os.path.join(d, 'smdx_%05d.xml' % mid), 'w', encoding='utf-8') as f:
        f.write(xml)
    rig.use_dir(d)
    return lambda: device.model_type_get(mid)


def judge(d, ways=('get', 'element')):
    xml, want = doc_xml(d), expected(d)
    for way in ways:
        if way == 'get':
            k, mt = call(load(xml, d['id']))
        else:
            mt = device.ModelType()
            k, v = call(mt.from_smdx, ET.fromstring(xml))
            mt = mt if k == 'ok' else v
        if k != 'ok':
            raise Violation('definition refused (%s): %s: %s: %s' % (way, type(mt).__name__, mt, xml), 'refused')
        got = shown(mt, way)
        if got['blocks']['fixed']['points'] == [] and want['blocks']['fixed']['name'] is None:
            got['blocks']['fixed']['name'] = None           # no fixed block in the document
        if got != want:
            for where, g, w in diffs(got, want):
                raise Violation('%s: %s is %r, expected %r' % (way, where, g, w), where.split(' ')[-1])
    return len(ways)


def diffs(g, w, where='definition'):
    if isinstance(g, dict) and isinstance(w, dict):
        for k in list(w) + [k for k in g if k not in w]:
            if g.get(k) != w.get(k):
                for x in diffs(g.get(k), w.get(k), where + ' ' + str(k)):
                    yield x
    elif isinstance(g, list) and isinstance(w, list) and len(g) == len(w):
        for i, (a, b) in enumerate(zip(g, w)):
            if a != b:
                for x in diffs(a, b, where + ' %d' % i):
                    yield x
    else:
        yield where, g, w


def pt(id, offset=0, type='int16', **kw):
    if type == 'string':
        kw.setdefault('len', 4)
    return dict({'id': id, 'offset': offset, 'type': type}, **kw)


def doc(fixed=None, rep=None, **kw):
    blocks = []
    if fixed is not None:
        blocks.append({'type': 'fixed', 'len': 10, 'points': fixed})
    if rep is not None:
        blocks.append({'type': 'repeating', 'len': 6, 'points': rep})
    return dict({'id': MID, 'len': 16, 'name': 'm', 'blocks': blocks}, **kw)


def subset(mask, tag):
    return {t: '%s %s' % (t, tag) for i, t in enumerate(TEXT) if mask >> i & 1}


def families(tier):
    thorough = tier == 'thorough'

    def point_cases():
        for t in TYPES:
            for ln in ([1, 2, 8, 16, 33] if t == 'string' else [None, 1, 2, 3, 8] if t == 'pad' else [None, TYPES[t], TYPES[t] + 1]):
                for access in (None, 'r', 'rw'):
                    for mand in (None, 'true', 'false'):
                        for units in (None, 'V', '% \u03a9', ''):
                            for sf in (None, 'SF', '-2', '0'):
                                for blk in ('fixed', 'rep'):
                                    yield [t, ln, access, mand, units, sf, blk]

    def point_run(c):
        t, ln, access, mand, units, sf, blk = c
        p = pt('P', 5, t, access=access, mandatory=mand, units=units, sf=sf)
        if ln is not None:
            p['len'] = ln
        others = [pt('SF', 0, 'sunssf'), p, pt('Z', 60)]
        n = judge(doc(others if blk == 'fixed' else [pt('A')], others if blk == 'rep' else None))
        return Obs(steps=n, outcome=c)

    NUM = ['%d', '0%d', '00%d', ' %d', '%d ', ' 0%d\n', '+%d']

    def number_cases():
        for i in range(len(NUM)):
            for v in (0, 1, 7, 8, 9, 10, 12, 64, 100, 255):
                for where in ('offset', 'len', 'pad', 'block', 'model', 'id', 'all'):
                    yield [i, v, where]

    def number_run(c):
        """Numbers in every spelling of decimals."""
        i, v, where = c
        sp = lambda n, *w: Spelled(n, NUM[i] % n) if where in w + ('all',) else n
        n = 0
        for blk in ('fixed', 'rep'):
            others = [pt('A', sp(v, 'offset'), 'string', len=sp(v + 1, 'len')), pt('B', 300, 'pad', len=sp(1, 'pad'))]
            d = doc(others if blk == 'fixed' else [pt('A')], others if blk == 'rep' else None, len=sp(400, 'model'), id=sp(MID, 'id'))
            for b in d['blocks']:
                b['len'] = sp(400 + v, 'block')
            n += judge(d)
        return Obs(steps=n, execs=2, outcomes=[(c, 0), (c, 1)])

    def structure_cases():
        pts = [[], [0], [0, 1], [1, 0]]
        for fixed in [None] + pts:
            for rep in [None] + pts:
                for order in (0, 1):
                    for names in itertools.product((None, 'x', 'fixed', 'repeating', ''), repeat=2):
                        for mname in (None, 'name', '', 'with space'):
                            for typed in (True, False):
                                yield [fixed, rep, order, list(names), mname, typed]

    def structure_run(c):
        fixed, rep, order, names, mname, typed = c
        n = 0
        for same_ids in (False, True):
            f = None if fixed is None else [pt('ABC'[i], 10 * i) for i in fixed]
            r = None if rep is None else [pt(('ABC' if same_ids else 'XYZ')[i], 7 + i, 'uint32') for i in rep]
            d = doc(f, r, name=mname, len=len(fixed or []) + 3)
            for b, nm in zip(d['blocks'], names):
                b['name'] = nm
            if not typed and f is not None:
                del d['blocks'][0]['type']
            if order:
                d['blocks'].reverse()
            n += judge(d)
        return Obs(steps=n, outcome=c)

    def text_cases():
        for m in range(8):
            for p in range(8):
                for y in range(8):
                    for where in ('strings', 'inline', 'both', 'other id', 'two sections', 'reversed', 'empty', 'first', 'two sections first', 'locale de', 'locale pt_BR',
                                  'locale ', 'no locale', 'locale de first'):
                        yield [m, p, y, where]

    def text_run(c):
        m, p, y, where = c
        n = 0
        for target in ('A', 'R'):
            for fancy in (False, True):
                tag = '<&> "\u00e9"' if fancy else 'text'
                sy = [{'id': 'ON', 'value': '1'}, {'id': 'OFF', 'value': '0'}]
                d = doc([pt('A', 0, 'enum16', symbols=[dict(x) for x in sy]), pt('B', 1)], [pt('R', 0, 'enum16', symbols=[dict(x) for x in sy])])
                sec = {'id': MID, 'locale': 'en', 'model': subset(m, tag),
                       'points': [dict(subset(p, tag), id=target, symbols=[dict(subset(y, tag), id='OFF')] if y else []), dict(label='b', id='B')]}
                if where == 'inline':
                    q = d['blocks'][0 if target == 'A' else 1]['points'][0]
                    q.update(subset(p, tag))
                    q['symbols'][1].update(subset(y, tag))
                    d['strings'] = [dict(sec, points=[])]
                elif where == 'both':
                    q = d['blocks'][0 if target == 'A' else 1]['points'][0]
                    q.update(subset(7, 'inline'))
                    q['symbols'][1].update(subset(7, 'inline'))
                    d['strings'] = [sec]
                elif where == 'other id':
                    d['strings'] = [dict(sec, id=MID + 1), dict(sec, id=1)]
                elif where.startswith('two sections'):
                    d['strings'] = [dict(sec, id=MID + 1, model=subset(7, 'other')), sec]
                elif where == 'reversed':
                    sec['model'] = dict(sec['model'], order=TEXT[::-1])
                    d['strings'] = [dict(sec, reversed=True)]
                elif where == 'empty':
                    d['strings'] = [dict(sec, points=[{'id': 'nonesuch', 'label': 'x'}])]
                else:
                    d['strings'] = [sec]
                if where.startswith('locale'):
                    sec['locale'] = where.split(' ')[1]
                elif where == 'no locale':
                    del sec['locale']
                d['first'] = where.endswith('first')
                n += judge(d)
        return Obs(steps=n, outcome=c)

    # texts of every shape: they are texts, nothing else
    SHAPES = ref.SHAPES

    def shape_cases():
        for k in range(len(SHAPES)):
            for place in ('model', 'point', 'repeating point', 'symbol', 'inline point', 'inline symbol'):
                for t in TEXT:
                    yield [k, place, t]

    def shape_run(c):
        k, place, t = c
        n = 0
        for others in (False, True):
            given = dict({x: 'other' for x in TEXT} if others else {}, **{t: SHAPES[k]})
            sy = [{'id': 'ON', 'value': '1'}, {'id': 'OFF', 'value': '0'}]
            d = doc([pt('A', 0, 'enum16', symbols=[dict(x) for x in sy]), pt('B', 1)], [pt('R', 0, 'enum16', symbols=[dict(x) for x in sy])])
            sec = {'id': MID, 'locale': 'en', 'model': given if place == 'model' else {}, 'points': []}
            if place == 'point':
                sec['points'] = [dict(given, id='A')]
            elif place == 'repeating point':
                sec['points'] = [dict(given, id='R')]
            elif place == 'symbol':
                sec['points'] = [dict(id='A', symbols=[dict(given, id='OFF')])]
            elif place == 'inline point':
                d['blocks'][1]['points'][0].update(given)
            elif place == 'inline symbol':
                d['blocks'][0]['points'][0]['symbols'][1].update(given)
            d['strings'] = [sec]
            n += judge(d)
        if t == 'label' and place == 'point' and '\n' not in SHAPES[k] and '\t' not in SHAPES[k] and '\x85' not in SHAPES[k] and '\u2028' not in SHAPES[k]:
            n += judge(doc([pt('A', 0, units=SHAPES[k])]))
        return Obs(steps=n, outcome=c)

    # symbols: each of 4 points (two in each block, one id in both) has one of the sets, with values of its own
    SETS = [[], ['A'], ['B'], ['A', 'B'], ['B', 'A']] + ([['C', 'A', 'B'], ['C']] if thorough else [['C', 'A', 'B']])

    def symbol_cases():
        for c in itertools.product(range(len(SETS)), repeat=4):
            for same in (False, True):
                yield list(c) + [same]

    def symbol_run(c):
        n = 0

        def syms(k, i, txt):
            return [dict({'id': s, 'value': str(10 * i + j)}, **(subset(1 + i % 7, '%s%d' % (s, i)) if txt else {})) for j, s in enumerate(SETS[k])]
        ids = [('P', 'Q'), ('R', 'P' if c[4] else 'S')]
        for txt in (False, True):
            fx = [pt(ids[0][i], i, 'enum16', symbols=syms(c[i], i, txt)) for i in range(2)]
            rp = [pt(ids[1][i], i, 'bitfield32', symbols=syms(c[2 + i], 2 + i, txt)) for i in range(2)]
            d = doc(fx, rp)
            if not txt:
                # texts in the strings section, of the points whose id occurs once
                d['strings'] = [{'id': MID, 'model': {}, 'points': [
                    {'id': p, 'label': 'l' + p, 'symbols': [dict(subset(1 + (i + j) % 7, '%s of %s' % (s, p)), id=s) for j, s in enumerate(SETS[k])]}
                    for i, (p, k) in enumerate(zip(ids[0] + ids[1], c)) if (ids[0] + ids[1]).count(p) == 1]}]
            n += judge(d)
        return Obs(steps=n, outcome=c)

    # every single defect
    def good():
        return doc([pt('A', 0, 'int16', access='rw', mandatory='true', units='V', sf='SF'), pt('SF', 1, 'sunssf'), pt('S', 2, 'string', len=4),
                    pt('E', 6, 'enum16', symbols=[{'id': 'ON', 'value': '1'}, {'id': 'OFF', 'value': '0'}])],
                   [pt('R', 0, 'uint32'), pt('T', 2, 'string', len=2), pt('F', 4, 'bitfield16', symbols=[{'id': 'X', 'value': '1'}])],
                   strings=[{'id': MID, 'model': {'label': 'm'}, 'points': [{'id': 'A', 'label': 'a'}]}])

    def defects():
        """(name, edit) for every single defect."""
        out = []

        def at(d, b, p):
            return d['blocks'][b]['points'][p]
        g = good()
        out.append(('model id missing', lambda d: d.pop('id')))
        out.append(('model len missing', lambda d: d.pop('len')))
        for v in ('', 'x', '1.5'):
            out.append(('model id %r' % v, lambda d, v=v: d.update(id=v)))
            out.append(('model len %r' % v, lambda d, v=v: d.update(len=v)))
        for b in range(2):
            out.append(('len of block %d missing' % b, lambda d, b=b: d['blocks'][b].pop('len')))
            for v in ('', 'x', 'Fixed', 'REPEATING', '1', 'fixed repeating', 'repeat', ' fixed'):
                out.append(('type %r of block %d' % (v, b), lambda d, b=b, v=v: d['blocks'][b].update(type=v)))
            for p in range(len(g['blocks'][b]['points'])):
                for a in ('id', 'offset', 'type'):
                    out.append(('%s of point %d.%d missing' % (a, b, p), lambda d, b=b, p=p, a=a: at(d, b, p).pop(a)))
                if at(g, b, p)['type'] == 'string':
                    out.append(('len of string %d.%d missing' % (b, p), lambda d, b=b, p=p: at(d, b, p).pop('len')))
                else:
                    out.append(('string without len %d.%d' % (b, p), lambda d, b=b, p=p: at(d, b, p).update(type='string')))
                for a, vs in (('type', ('', 'x', 'INT16', 'int 16', 'int8', 'uint', 'float', 'float64', 'str', 'string16', ' int16', 'None', 'fixed')),
                              ('access', ('', 'x', 'w', 'R', 'RW', 'wr', 'r w', 'read', 'None')),
                              ('mandatory', ('', 'x', 'True', 'FALSE', '1', '0', 'yes', 'None')), ('offset', ('', 'x', '1.5', 'None'))):
                    for v in vs:
                        out.append(('%s %r of point %d.%d' % (a, v, b, p), lambda d, b=b, p=p, a=a, v=v: at(d, b, p).update({a: v})))
                for q in range(len(g['blocks'][b]['points'])):
                    if q != p:
                        out.append(('point %d.%d has the id of %d' % (b, p, q), lambda d, b=b, p=p, q=q: at(d, b, p).update(id=at(d, b, q)['id'])))
                for place in range(len(g['blocks'][b]['points']) + 1):
                    out.append(('point %d.%d again at %d' % (b, p, place), lambda d, b=b, p=p, place=place:
                                d['blocks'][b]['points'].insert(place, dict(at(d, b, p), offset=9))))
                if at(g, b, p).get('symbols'):
                    for y in range(len(at(g, b, p)['symbols'])):
                        out.append(('id of symbol %d.%d.%d missing' % (b, p, y), lambda d, b=b, p=p, y=y: at(d, b, p)['symbols'][y].pop('id')))
            for place in range(3):
                out.append(('block %d again at %d' % (b, place), lambda d, b=b, place=place: d['blocks'].insert(place, dict(d['blocks'][b], points=[pt('N%d' % place)]))))
                out.append(('empty block %d again at %d' % (b, place), lambda d, b=b, place=place: d['blocks'].insert(place, dict(d['blocks'][b], points=[]))))
        return out

    DEFECTS = defects()

    def bad_cases():
        for i in range(len(DEFECTS)):
            for variant in ('plain', 'no strings', 'reversed'):
                yield [i, variant]

    def bad_run(c):
        i, variant = c
        d = good()
        judge(d)
        DEFECTS[i][1](d)
        if variant == 'no strings':
            d['strings'] = []
        elif variant == 'reversed':
            d['blocks'].reverse()
        xml = doc_xml(d)
        expect_exc('definition with %s' % DEFECTS[i][0], rig.SErr, load(xml))
        # the device that has such a model keeps it with its error
        sim = rig.SimDevice(ref.image(40000, [(MID, 16, [1] * 16), (MID + 1, 1, [2])]))
        dev = rig.client_device(sim)
        expect_ok('scan', dev.scan)
        eq('models of the device', [(m.id, m.len) for m in dev.models_list], [(MID, 16), (MID + 1, 1)])
        check(dev.models_list[0].load_error is not None, 'the model with a refused definition has no load error', 'load error')
        dev.close()
        # and a repaired definition is found afterwards
        judge(good(), ('get',))
        return Obs(steps=4, outcome=c)

    BROKEN = ['', ' ', 'x', '<sunSpecModels v="1">', '<sunSpecModels v="1"/>', '<sunSpecModels v="1"><strings id="64850"/></sunSpecModels>']

    def broken_cases():
        for i in range(len(BROKEN)):
            yield [i]
        full = doc_xml(good())
        for cut in range(1, len(full), 1 if thorough else 7):
            yield ['cut', cut]

    def broken_run(c):
        xml = BROKEN[c[0]] if c[0] != 'cut' else doc_xml(good())[:c[1]]
        expect_exc('damaged definition', rig.SErr, load(xml))
        judge(good(), ('get',))
        return Obs(steps=2, outcome=c)

    def name_cases():
        for i in range(64):
            yield [i]

    def name_run(c):
        seen = {}
        for mid in range(c[0] * 1024, (c[0] + 1) * 1024):
            f = expect_ok('file name of %d' % mid, smdx.model_id_to_filename, mid)
            eq('file name of %d' % mid, f, 'smdx_%s.xml' % str(mid).zfill(5))
            eq('file name of the id as text', smdx.model_id_to_filename(str(mid)), f)
            eq('id of %s' % f, smdx.model_filename_to_id(f), mid)
            for other in ('x' + f, f + 'x', f[:-4], f[5:], f.replace('smdx', 'smd'), f.replace('_', '-'), f.upper(), f[:5] + 'x' + f[5:], f[:-4] + '.xm',
                          f.replace('.xml', '.xsd'), 'dir/' + f, f[:-5] + 'x.xml'):
                eq('id of %s' % other, smdx.model_filename_to_id(other), None)
        for other in ('', 'smdx_', 'smdx_.xml', '.xml', 'smdx_abc.xml', 'smdx.xml', 'smdx_1.5.xml', 'smdx_0x01.xml'):
            eq('id of %r' % other, smdx.model_filename_to_id(other), None)
        return Obs(steps=1024 * 15, outcome=c)

    def pair_cases():
        """Two documents one after the other: nothing of the first shows in the second."""
        for i, j in itertools.product(range(4), repeat=2):
            for same in (False, True):
                yield [i, j, same]

    def pair_run(c):
        i, j, same = c

        def variant(k, mid):
            d = good()
            d['id'] = mid
            d['strings'][0]['id'] = mid
            if k == 1:
                d['blocks'].pop()
            elif k == 2:
                d['blocks'][0]['points'][3]['symbols'] = [{'id': 'ON', 'value': '7'}]
                d['strings'] = []
            elif k == 3:
                d['blocks'] = []
            return d
        n = judge(variant(i, MID))
        n += judge(variant(j, MID if same else MID + 5))
        n += judge(variant(i, MID))
        return Obs(steps=n, outcome=c)

    return [
        Family('points', point_cases, point_run, what='every combination of point attributes'),
        Family('numbers', number_cases, number_run, what='numbers in every spelling of decimals, everywhere'),
        Family('structure', structure_cases, structure_run, what='every structure of blocks and names'),
        Family('shapes', shape_cases, shape_run, what='texts of 54 shapes (blanks, line breaks, markup, scripts, lengths) at every place'),
        Family('texts', text_cases, text_run, what='every subset of texts at every level, in every place'),
        Family('symbols', symbol_cases, symbol_run, what='symbol sets of four points sharing symbol ids'),
        Family('defects', bad_cases, bad_run, what='every single defect of a definition'),
        Family('damaged', broken_cases, broken_run, what='damaged and cut documents'),
        Family('names', name_cases, name_run, what='file names of all model ids'),
        Family('pairs', pair_cases, pair_run, what='definitions loaded one after another'),
    ]
