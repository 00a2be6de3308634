import copy
import itertools
import os
import struct
import xml.etree.ElementTree as ET

from .. import core, ref, rig, wire
from ..core import Family, Obs, Violation, call, check, eq, expect_ok
from ..ref import P
from ..wire import SimDevice, world
from . import c16, c20
from .c20 import doc, doc_xml, pt

PROP, LEVEL = 'C22', 'exploration'
TECHNIQUE = ('exhaustive enumeration of pairs of device contents and of pairs of definitions that differ in every possible place (or in none), '
             'built independently through the real loaders and compared in both directions')
RULE = 'one evaluation per pair of contents; distinct by the pair'
BOUNDS = ('all pairs of register patterns of every point of a model with 20 types; all pairs of chains of up to 2 (quick) or 3 (thorough) of 9 model kinds, 4 ways '
          'of building each; all pairs of about 150 single edits of a definition; every definition edit also on devices')
ASSUMPTIONS = ['scale factor registers no point uses, lengths of unknown models, the order of points and symbols, and zeros of different sign are not judged']

device = rig.device
SCALED = [ref.Model(64406, [P('SF', 'sunssf'), P('A', 'int16', sf='SF'), P('SF2', 'sunssf'), P('B', 'uint32', sf='SF2')], name='scaled'),
          ref.Model(64407, [P('SF', 'sunssf')], [P('A', 'int16', sf='SF'), P('SF2', 'sunssf'), P('B', 'uint32', sf='SF2')], name='scaledr')]
ALL, REP, FIX, COMMON, ONLY, UNKNOWN = c16.ALL, c16.REP, c16.FIX, c16.COMMON, c16.ONLY, c16.UNKNOWN
SYM = ref.Model(64405, [P('St', 'enum16', symbols=[('ON', '1'), ('OFF', '0')]), P('Ev', 'bitfield32', symbols=[('ON', '3'), ('X', '4')], label='events')],
                [P('Mode', 'enum16', symbols=[('ON', '7')]), P('v', 'int16')], name='sym', label='Symbols', description='d', notes='n')


def setup():
    rig.definitions(list(c16.MODELS.values()) + [SYM] + SCALED)


OTHER = 'other 100% %s {} {0} {x} \\'


def parts(a, b):
    """Corresponding parts of two objects."""
    out = []
    for name in ('models_list', 'blocks', 'points_list'):
        x, y = getattr(a, name, None), getattr(b, name, None)
        if x and y:
            out += list(zip(x, y))
    for name in ('model_type', 'fixed_block', 'repeating_block', 'block_type', 'point_type'):
        x, y = getattr(a, name, None), getattr(b, name, None)
        if x is not None and y is not None and x is not y and not (name in ('model_type', 'block_type') and type(a).__name__ in ('BlockType', 'PointType')):
            out.append((x, y))
    for x, y in list(out):
        out += parts(x, y)
    return out


def verdict(a, b, differ, what):
    """Both directions, each side with itself, and the parts of both."""
    for x, y in parts(a, b):
        if not hasattr(x, 'not_equal'):
            continue
        got = []
        for p, q in ((x, y), (y, x)):
            k, v = call(p.not_equal, q)
            if k != 'ok':
                raise Violation('%s: comparison of %s raised %s: %s' % (what, type(x).__name__, type(v).__name__, v), 'comparison raises')
            check(v is False or isinstance(v, str) and v, '%s: comparison of %s gives %r, neither False nor a reason' % (what, type(x).__name__, v), 'no reason')
            got.append(bool(v))
        check(got[0] == got[1] and (differ or not got[0]), '%s: %s differ: %r %r' % (what, type(x).__name__, got, v), 'parts')
    for x, y, way in ((a, b, ''), (b, a, ' (other direction)')):
        k, v = call(x.not_equal, y)
        if k != 'ok':
            raise Violation('%s%s: comparison raised %s: %s' % (what, way, type(v).__name__, v), 'comparison raises')
        if differ:
            check(isinstance(v, str) and v, '%s%s: no difference reported (%r)' % (what, way, v), 'difference missed')
        else:
            check(v is False, '%s%s: difference reported: %r' % (what, way, v), 'false difference')
    for x in (a, b):
        eq('%s: comparison with itself' % what, x.not_equal(x), False)


def read_device(chain, transport='tcp', base=40000):
    dev = rig.client_device(SimDevice(ref.image(base, chain)), transport)
    expect_ok('scan', dev.scan)
    expect_ok('read', dev.read_points)
    return dev


def build(chain, way):
    if way in ('tcp', 'rtu', 'mapped'):
        return read_device(chain, way)
    if way == 'moved':
        return read_device(chain, 'tcp', 50000)
    src = read_device(chain)
    root = c16.element(src, False)
    d = device.Device()
    expect_ok('load', d.from_pics, ET.fromstring(ET.tostring(root))[0])
    return d


WAYS = ['tcp', 'rtu', 'mapped', 'moved', 'pics']


def families(tier):
    thorough = tier == 'thorough'

    # values: two patterns of one point
    def value_cases():
        for i, p in enumerate(ALL.fixed):
            if p.type != 'pad':
                for j in range(len(c16.patterns(p))):
                    yield [i, j]

    def all_device(i, j, way='tcp'):
        def which(b, p, n):
            if p is ALL.fixed[i]:
                return c16.patterns(p)[j]
            return struct.pack('>h', -1) if p.type == 'sunssf' else None
        regs = ref.fill(ALL, 0, 3, which)
        return build([(ALL.id, ALL.length(), regs)], way), regs

    def shown(regs):
        return ALL.expect(lambda a: regs[a], 0, 0)

    def value_run(c):
        i, j = c
        a, ra = all_device(i, j)
        n = 0
        for k in range(len(c16.patterns(ALL.fixed[i]))):
            for way in ('rtu', 'pics'):
                b, rb = all_device(i, k, way)
                va, vb = shown(ra), shown(rb)
                same = all(c16.same_number(va[x][0], vb[x][0]) and va[x][1] == vb[x][1] for x in va)
                if not same and all(va[x][0] == vb[x][0] and va[x][1] == vb[x][1] for x in va):
                    continue              # zeros of different sign
                verdict(a, b, not same, 'point %s with %s and %s (%s)' % (ALL.fixed[i].id, c16.patterns(ALL.fixed[i])[j].hex(),
                                                                          c16.patterns(ALL.fixed[i])[k].hex(), way))
                n += 1
        return Obs(steps=4 * n, execs=n, outcomes=[[c, k] for k in range(n)])

    # values in repeating blocks: each point of each block changed, or two
    def rep_cases():
        pts = [(b, p.id) for b, p, off in REP.points(3) if p.type != 'pad']
        for x in range(len(pts)):
            yield [x, None]
            for y in range(x + 1, len(pts)):
                yield [x, y]

    def rep_run(c):
        pts = [(b, p, off) for b, p, off in REP.points(3) if p.type != 'pad']
        base = ref.fill(REP, 3, 5, c16.sfix)
        new = list(base)
        for x in c:
            if x is None:
                continue
            b, p, off = pts[x]
            data = ref.sample(p.type, p.len, 999 + x) if p.type != 'sunssf' else struct.pack('>h', -3)
            new[off:off + p.len] = ref.words(data)
        # all scale factors here are used by some point (whose value is implemented)
        differ = [REP.expect(lambda a: r[a], 0, 3) for r in (base, new)]
        d = differ[0] != differ[1]
        n = 0
        for w1, w2 in (('tcp', 'rtu'), ('pics', 'tcp'), ('mapped', 'pics')):
            verdict(build([(REP.id, REP.length(3), base)], w1), build([(REP.id, REP.length(3), new)], w2), d, 'points %r' % [(pts[x][0], pts[x][1].id) for x in c if x is not None])
            verdict(build([(REP.id, REP.length(3), new)], w1), build([(REP.id, REP.length(3), list(new))], w2), False, 'same content')
            n += 8
        return Obs(steps=n, outcome=c)

    # the same value written with different scale factors
    SCALES = [(v, f) for v in (0, 1, 10, 100, 1000, 25, 250, 2500) for f in (-2, -1, 0, 1, 2, None)]

    def scale_cases():
        for m in range(len(SCALED)):
            for i in range(len(SCALES)):
                yield [m, i]

    def scale_run(c):
        m, i = SCALED[c[0]], c[1]
        reps = 2 if m.repeating else 0
        outs = []

        def regs(at, v, f):
            f = -0x8000 if f is None else f

            def which(b, p, n):
                # in the last block
                if p.type == 'sunssf':
                    return struct.pack('>h', f if at[1:] == p.id[2:] else 1)
                if p.id == at[0] and b == reps:
                    return ref.encode(p.type, v)
                return ref.encode(p.type, 5)
            return ref.fill(m, reps, 0, which)
        for at in ('A', 'B2'):
            a = build([(m.id, m.length(reps), regs(at, *SCALES[i]))], 'tcp')
            for j, (v, f) in enumerate(SCALES):
                for way in ('rtu', 'pics'):
                    verdict(a, build([(m.id, m.length(reps), regs(at, v, f))], way), i != j,
                            '%s with %r and %r (%s)' % (at, SCALES[i], (v, f), way))
                    outs.append([c, at, j, way])
        return Obs(steps=4 * len(outs), execs=len(outs), outcomes=outs)

    # many blocks or models: one of them differs, or there is one more
    def size_cases():
        for n in (4, 9, 10, 11, 12, 21, 100, 101):
            for i in range(n):
                yield ['blocks', n, i]
                if n < 100:
                    yield ['models', n, i]

    def size_run(c):
        kind, n, i = c
        if kind == 'blocks':
            base = ref.fill(ONLY, n, 5, c16.sfix)
            new = list(base)
            new[i * ONLY.rep_len] ^= 3
            a, b, more = ([(ONLY.id, ONLY.length(k), w[:ONLY.length(k)])] for k, w in ((n, base), (n, new), (n - 1, base)))
        else:
            a = [(FIX.id, 2, [7, 8])] * n
            b = [(FIX.id, 2, [7, 8 + (j == i)]) for j in range(n)]
            more = a[1:]
        for w1, w2 in (('tcp', 'rtu'), ('pics', 'tcp'), ('mapped', 'pics')):
            verdict(build(a, w1), build(b, w2), True, '%s: %d of %d differs' % (kind, i, n))
            verdict(build(a, w1), build(a, w2), False, '%d equal %s' % (n, kind))
            verdict(build(a, w1), build(more, w2), True, '%d and %d %s' % (n, n - 1, kind))
        return Obs(steps=18, outcome=c)

    KINDS = [(REP, 0), (REP, 1), (REP, 2), (FIX, 0), (COMMON, 0), ('unknown', 0), ('unknown2', 0), (SYM, 2), ('short', 0)]

    def chain_of(ks):
        out = []
        for k in ks:
            m, reps = KINDS[k]
            if m == 'unknown':
                out.append((UNKNOWN, 3, [7, 8, 9]))
            elif m == 'unknown2':
                out.append((UNKNOWN - 1, 3, [7, 8, 9]))
            elif m == 'short':
                out.append((FIX.id, 1, [7]))
            else:
                out.append((m.id, m.length(reps), ref.fill(m, reps, 3, c16.sfix)))
        return out

    def chains(n):
        for k in range(n + 1):
            for ks in itertools.product(range(len(KINDS)), repeat=k):
                yield list(ks)

    LIST = list(chains(3 if thorough else 2))
    SMALL = list(chains(2))

    def chain_cases():
        for i in range(len(LIST)):
            yield [i]

    def usable(ks, way):
        """A PICS document cannot say that a model does not load."""
        return way != 'pics' or not any(KINDS[k][0] == 'short' for k in ks)

    def chain_run(c):
        a_ks = LIST[c[0]]
        n = 0
        a = build(chain_of(a_ks), 'tcp')
        for way in WAYS:
            if usable(a_ks, way):
                verdict(a, build(chain_of(a_ks), way), False, 'models %r built by tcp and %s' % (a_ks, way))
                n += 1
        for b_ks in (SMALL if thorough else LIST):
            if b_ks != a_ks and b_ks >= a_ks:
                way = ('rtu', 'mapped')[len(b_ks) % 2]
                verdict(a, build(chain_of(b_ks), way), True, 'models %r and %r' % (a_ks, b_ks))
                n += 1
        return Obs(steps=4 * n, execs=n, outcomes=[[c[0], i] for i in range(n)])

    # definitions: every single edit
    def good():
        return doc([pt('A', 0, 'int16', access='rw', mandatory='true', units='V', sf='SF', label='la', description='da', notes='na'),
                    pt('B', 1, 'uint16', sf='SF', units='W'), pt('SF', 2, 'sunssf'), pt('S', 3, 'string', len=4), pt('K', 7, 'int16', sf='-1'),
                    pt('E', 8, 'enum16', label='le', symbols=[{'id': 'ON', 'value': '1', 'label': 'on', 'description': 'ond'}, {'id': 'OFF', 'value': '0'}]),
                    pt('pad', 9, 'pad')],
                   [pt('R', 0, 'uint16', sf='RSF'), pt('RSF', 1, 'sunssf'), pt('T', 2, 'string', len=2),
                    pt('F', 4, 'bitfield16', symbols=[{'id': 'ON', 'value': '1', 'notes': 'x'}]), pt('G', 5, 'enum16', mandatory='true')],
                   label='lm', notes='nm')

    def with_texts(d):
        d = copy.deepcopy(d)
        d['strings'] = [{'id': d['id'], 'model': {t: d[t] for t in c20.TEXT if d.get(t) is not None}}]
        return d

    def edits():
        """(name, edit, loadable): each gives a different definition; loadable: a device of the same registers loads with both."""
        out = []
        g = good()
        for v in (c20.MID + 1,):
            out.append(('model id', lambda d, v=v: d.update(id=v), False))
        out.append(('model len', lambda d: d.update(len=17), True))
        for a in ('name', 'label', 'description', 'notes'):
            for v in (OTHER, None, ' ' if a == 'name' else 'x y'):
                if g.get(a) != v:
                    out.append(('model %s %r' % (a, v), lambda d, a=a, v=v: d.update({a: v}), True))
        out.append(('no repeating block', lambda d: d['blocks'].pop(), False))
        out.append(('no fixed block', lambda d: d['blocks'].pop(0), False))
        for b in range(2):
            def at(d, p, b=b):
                return d['blocks'][b]['points'][p]
            out.append(('len of block %d' % b, lambda d, b=b: d['blocks'][b].update(len=3), False))
            for v in (OTHER, 'x'):
                out.append(('name of block %d %s' % (b, v), lambda d, b=b, v=v: d['blocks'][b].update(name=v), True))
            out.append(('point added to block %d' % b, lambda d, b=b: d['blocks'][b]['points'].append(pt('NEW', 9)), False))
            for p, q in enumerate(g['blocks'][b]['points']):
                if q['id'] not in ('SF', 'RSF'):
                    out.append(('point %s removed' % q['id'], lambda d, b=b, p=p: d['blocks'][b]['points'].pop(p), True))
                    out.append(('point %s renamed' % q['id'], lambda d, at=at, p=p: at(d, p).update(id='renamed%d' % p), True))
                changes = [('offset', q['offset'] + 1), ('type', 'uint16' if q['type'] != 'uint16' else 'int16'), ('type', 'count'),
                           ('mandatory', 'true' if q.get('mandatory') != 'true' else 'false'), ('access', 'rw' if q.get('access') != 'rw' else 'r'),
                           ('units', OTHER), ('units', None), ('sf', '3'), ('sf', '-2'), ('sf', None), ('sf', 'SF'), ('label', OTHER), ('label', None),
                           ('description', OTHER), ('description', None), ('notes', OTHER), ('notes', None)]
                if q['type'] == 'string':
                    changes = [x for x in changes if x[0] != 'type'] + [('len', q['len'] - 1)]
                for a, v in changes:
                    if q.get(a) == v or q['type'] in ('sunssf',) and a in ('type', 'sf') or (a, v) == ('sf', 'SF') and q['id'] == 'SF':
                        continue
                    ok = a not in ('type', 'offset') and q['type'] not in ('pad', 'sunssf') and not (a == 'sf' and q['type'] in ('string',))
                    out.append(('%s of %s %r' % (a, q['id'], v), lambda d, at=at, p=p, a=a, v=v: at(d, p).update({a: v}), ok))
                if q['type'] in ('enum16', 'bitfield16'):
                    out.append(('symbol of %s added' % q['id'], lambda d, at=at, p=p: at(d, p).setdefault('symbols', []).append({'id': 'NEW', 'value': '9'}), True))
                    if q.get('symbols'):
                        out.append(('symbols of %s removed' % q['id'], lambda d, at=at, p=p: at(d, p).pop('symbols'), True))
                    for y, z in enumerate(q.get('symbols', ())):
                        for a, v in (('id', 'OTHER'), ('value', '8'), ('value', None), ('label', OTHER), ('label', None), ('description', OTHER),
                                     ('description', None), ('notes', OTHER), ('notes', None)):
                            if z.get(a) != v:
                                out.append(('%s of symbol %s of %s %r' % (a, z['id'], q['id'], v),
                                            lambda d, at=at, p=p, y=y, a=a, v=v: at(d, p)['symbols'][y].update({a: v}), True))
        return out

    EDITS = edits()

    def edited(i):
        d = good()
        if i is not None:
            EDITS[i][1](d)
        return with_texts(d)

    def model_type(d):
        mt = device.ModelType()
        expect_ok('definition', mt.from_smdx, ET.fromstring(doc_xml(d)))
        return mt

    def edit_cases():
        for i in range(-1, len(EDITS)):
            yield [i]

    def edit_run(c):
        i = c[0]
        da = edited(i if i >= 0 else None)
        a = model_type(da)
        verdict(a, model_type(edited(i if i >= 0 else None)), False, 'definition loaded twice')
        n = 1
        for j in range(max(i, -1) + 1, len(EDITS)):
            db = edited(j)
            same = c20.expected(da) == c20.expected(db)
            verdict(a, model_type(db), not same, 'definitions with %s and with %s' % ('nothing' if i < 0 else EDITS[i][0], EDITS[j][0]))
            n += 1
        return Obs(steps=4 * n, execs=n, outcomes=[[i, k] for k in range(n)])

    # the same on devices
    def dev_cases():
        for i, (name, fn, ok) in enumerate(EDITS):
            if ok:
                for way in ('tcp', 'pics'):
                    yield [i, way]

    def with_definition(d, way, chain):
        dd = core.scratch_dir('defs22')
        with open('%s/smdx_%05d.xml' % (dd, c20.MID), 'w', encoding='utf-8') as f:
            f.write(doc_xml(d))
        rig.use_dir(dd)
        return build(chain, way)

    def dev_run(c):
        i, way = c
        regs = [100 + k for k in range(22)]
        regs[2] = 1
        regs[11] = regs[17] = 1
        chain = [(c20.MID, 22, regs)]
        g1, g2 = with_definition(edited(None), 'tcp', chain), with_definition(edited(None), way, chain)
        verdict(g1, g2, False, 'devices of the same definition')
        e = with_definition(edited(i), way, chain)
        check(e.models_list[0].load_error is None, 'edited definition does not load: %s' % e.models_list[0].load_error, 'harness')
        check(len(e.models_list[0].blocks) == len(g1.models_list[0].blocks), 'blocks', 'harness')
        verdict(g1, e, True, 'devices with a definition with %s' % EDITS[i][0])
        verdict(e, with_definition(edited(i), 'rtu', chain), False, 'devices of the same edited definition')
        return Obs(steps=12, outcome=c)

    # edits that say the same
    SAME = [('access', lambda d: d['blocks'][0]['points'][1].update(access='r')), ('mandatory', lambda d: d['blocks'][0]['points'][1].update(mandatory='false')),
            ('block type', lambda d: d['blocks'][0].pop('type')), ('block name', lambda d: d['blocks'][1].update(name='repeating')),
            ('len of int16', lambda d: d['blocks'][0]['points'][0].update(len=1)), ('order of blocks', lambda d: d['blocks'].reverse())]

    def same_cases():
        for mask in range(1 << len(SAME)):
            yield [mask]

    def same_run(c):
        a, b = good(), good()
        for i, (name, fn) in enumerate(SAME):
            if c[0] >> i & 1 and name != 'order of blocks':
                fn(b)
        if c[0] >> 5 & 1:
            b['blocks'].reverse()
        verdict(model_type(with_texts(a)), model_type(with_texts(b)), False, 'definitions that say the same in other words (%d)' % c[0])
        return Obs(steps=4, outcome=c)

    # every model id, with the points of the common model
    def id_cases():
        ids = range(1, 65535) if thorough else sorted(set(list(range(1, 131)) + [k * 100 + j for k in range(2, 10) for j in (0, 1, 2, 3, 4, 5, 11, 12, 13)] +
                                                      [256, 257, 512, 1000, 4096, 32767, 32768, 63001, 63002, 64001, 64020, 64101, 64111, 64112, 65534]))
        for i in ids:
            if i not in (0,):
                yield [i]

    def id_run(c):
        i = c[0]
        m = ref.Model(i, [P(p.id, p.type, p.len, access='rw' if p.id == 'DA' else None) for p in COMMON.fixed], [P('V', 'int16', sf='SF'), P('SF', 'sunssf')], name='m%d' % i)
        dd = core.scratch_dir('ids22')
        for f in os.listdir(dd):
            os.unlink(os.path.join(dd, f))
        m.write(dd)
        rig.use_dir(dd)

        def which(b, p, n):
            if p.type == 'sunssf':
                return struct.pack('>h', -1)
        base = ref.fill(m, 2, 3, which)
        regs = [base] + [list(base) for b, p, off in m.points(2) if p.type != 'pad']
        for r, (b, p, off) in zip(regs[1:], [x for x in m.points(2) if x[1].type != 'pad']):
            r[off + p.len - 1] ^= 1
        ds = [build([(i, m.length(2), r)], ('tcp', 'rtu')[k % 2]) for k, r in enumerate(regs)]
        for k, (x, y) in enumerate(itertools.combinations_with_replacement(range(len(ds)), 2)):
            if x == y or x == 0 or i < 200:
                verdict(ds[x], ds[y], x != y, 'model %d: devices that differ in points %d and %d' % (i, x, y))
        return Obs(steps=4 * len(ds), outcome=c)

    return [
        Family('values', value_cases, value_run, setup, what='every pair of register patterns of every point'),
        Family('blocks', rep_cases, rep_run, setup, what='differences in one or two points of repeating blocks'),
        Family('scaled', scale_cases, scale_run, setup, what='every pair of 48 values and scale factors, many of them of equal scaled values'),
        Family('sizes', size_cases, size_run, setup, what='every one of up to 101 blocks or 21 models changed, and one more'),
        Family('chains', chain_cases, chain_run, setup, what='every pair of chains of models'),
        Family('definitions', edit_cases, edit_run, what='every pair of single edits of a definition'),
        Family('devices', dev_cases, dev_run, what='every edit of a definition, on devices'),
        Family('ids', id_cases, id_run, what='devices of a model that differ in one point', bound='%s model ids' % ('all' if thorough else '216')),
        Family('same', same_cases, same_run, what='definitions that say the same in other words'),
    ]
