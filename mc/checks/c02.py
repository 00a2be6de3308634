import itertools

from .. import core, ref, rig, wire
from ..core import Family, Obs, Violation, call, check, eq, expect_exc, expect_ok
from ..ref import P
from ..wire import SimDevice, world

PROP, LEVEL = 'C02', 'exploration'
TECHNIQUE = ('exhaustive enumeration of model definitions over a point alphabet, lengths and repeat counts; every instance '
             'the real code builds is compared with an independent layout')
RULE = 'one evaluation per (definition, length, definition length, model class); distinct by that tuple'
BOUNDS = ('definitions with <=3 fixed and <=1 (quick) or <=2 repeating points over 10 point kinds, 0..3 repeats (8 definitions: up to 257, thorough 2000), lengths '
          'off by -1, 0, +1 and omitted')

MID = 64003


def point(letter, pos):
    i = '%s%d' % (letter, pos)
    return {'h': lambda: P(i, 'int16'), 'w': lambda: P(i, 'uint32'), 's': lambda: P(i, 'string', 2),
            'p': lambda: P(i, 'pad'), 'f': lambda: P('SF', 'sunssf'), 'a': lambda: P(i, 'int16', sf='SF'),
            'b': lambda: P(i, 'acc32', sf='SF'), 'c': lambda: P(i, 'int16', sf='-2'), 'm': lambda: P(i, 'int16', sf='NONE'),
            'g': lambda: P(i, 'int16')}[letter]()


def build(fixed, rep, deflen):
    def pts(word):
        out, off = [], 0
        for n, k in enumerate(word):
            p = point(k, n)
            if k == 'g':
                p.offset = off + 1          # a register that no point describes
                off = p.offset
            else:
                p.offset = off
            off += p.len
            out.append(p)
        return out
    m = ref.Model(MID, pts(fixed), None if rep is None else pts(rep))
    if deflen is not None:
        m.len = m.length(deflen)
    return m


def judge(m, mod, addr, repeats, what, legacy=False):
    inst = m.instance(repeats)
    eq('%s: number of blocks' % what, len(mod.blocks), len(inst))
    for b, (n, off, pts) in zip(mod.blocks, inst):
        w = '%s block %d' % (what, n)
        eq(w + ' index', b.index, n)
        eq(w + ' address', int(b.addr), addr + off)
        eq(w + ' length', int(b.len), 65 if legacy else (m.rep_len if n else m.fixed_len))
        eq(w + ' type', b.type, 'repeating' if n else 'fixed')
        vals = [p for p in pts if p.type not in ('pad', 'sunssf')]
        sfs = [p for p in pts if p.type == 'sunssf']
        eq(w + ' points', [p.point_type.id for p in b.points_list], [p.id for p in vals])
        eq(w + ' points by id', sorted(b.points), sorted(p.id for p in vals))
        eq(w + ' scale factors by id', sorted(b.points_sf), sorted(p.id for p in sfs))
        for p, q in zip(b.points_list, vals):
            check(b.points[q.id] is p, '%s: points[%s] is another point' % (w, q.id), 'points by id')
        for q in vals + sfs:
            p = b.points_sf[q.id] if q.type == 'sunssf' else b.points[q.id]
            eq('%s point %s address' % (w, q.id), int(p.addr), addr + off + q.offset)
            eq('%s point %s length' % (w, q.id), int(p.point_type.len), q.len)
            how = m.sf_of(q, n, repeats) if q.type != 'sunssf' else None
            if how is None:
                check(p.sf_point is None, '%s point %s has a scale factor' % (w, q.id), 'scale factor binding')
            elif how[0] == 'const':
                check(p.sf_point is not None and p.sf_point.value_base == how[1], '%s point %s: constant scale factor' % (w, q.id),
                      'scale factor binding')
            else:
                check(p.sf_point is not None and int(p.sf_point.addr) == addr + how[1],
                      '%s point %s: bound to a scale factor at %s, expected %d' % (
                          w, q.id, getattr(p.sf_point, 'addr', None), addr + how[1]), 'scale factor binding')
                check(any(p.sf_point is x.points_sf.get(q.sf) for x in mod.blocks), '%s point %s: foreign scale factor' % (w, q.id),
                      'scale factor binding')
    if mod.blocks:
        check(mod.points_list is mod.blocks[0].points_list or mod.points_list == mod.blocks[0].points_list, 'model points')
        check([mod.points[k] for k in sorted(mod.points)] == [mod.blocks[0].points[k] for k in sorted(mod.points)] and
              sorted(mod.points) == sorted(mod.blocks[0].points), 'model points by id')
        check(sorted(mod.points_sf) == sorted(mod.blocks[0].points_sf) and
              all(mod.points_sf[k] is mod.blocks[0].points_sf[k] for k in mod.points_sf), 'model scale factors')


LETTERS = 'hwspfabcmg'


def words(n):
    for k in range(n + 1):
        for w in itertools.product(LETTERS, repeat=k):
            if w.count('f') <= 1:
                yield ''.join(w)


def families(tier):
    reps = [None, ''] + [w for w in words(1) if w]
    if tier == 'quick':
        reps += ['fa', 'af', 'wa', 'pc', 'ga', 'sf', 'mh', 'hp']
    else:
        reps += [w for w in words(2) if len(w) == 2]

    def cases():
        for f in words(3):
            if len(f) == 3 and tier == 'quick':
                sub = reps[:2] + ['a', 'h', 'w', 'fa', 'mh']
            elif len(f) == 3:
                sub = reps[:12] + ['fa', 'af', 'ab', 'ca', 'am']
            else:
                sub = reps
            for r in sub:
                yield [f, r]

    def run(c):
        f, r = c
        n = 0
        outs = []
        for deflen in ([None] if r is None else [1] if tier == 'quick' and len(f) > 1 else [0, 1, 2]):
            m = build(f, r, deflen)
            rig.definitions([m], 'one')
            plans = []
            for k in range(4 if r else 1):
                for d in (-1, 0, 1):
                    plans.append(m.length(k) + d)
            plans.append(None)
            for length in dict.fromkeys(plans):
                if length is not None and length <= 0:
                    continue
                eff = m.len if length is None else length
                ok, repeats = True, 0
                if eff < m.fixed_len:
                    ok = False
                elif r is not None and eff > m.fixed_len:
                    if m.rep_len == 0 or (eff - m.fixed_len) % m.rep_len:
                        ok = False
                    else:
                        repeats = (eff - m.fixed_len) // m.rep_len
                if ok and ('m' in f or (repeats and 'm' in r) or
                           any(m.sf_of(p, b, repeats) and m.sf_of(p, b, repeats)[0] == 'missing' for b, p, _ in m.points(repeats))):
                    ok = False
                for cls, addr in ((rig.device.Model, 70), (rig.client.ClientModel, 40072)):
                    mod = cls(rig.device.Device(), MID, addr, 0 if length is None else length)
                    what = 'definition %s/%s length %s' % (f, r, length)
                    n += 1
                    if ok:
                        expect_ok('load of ' + what, mod.load)
                        judge(m, mod, addr, repeats, what)
                        eq(what + ': model length', mod.len, eff)
                    else:
                        expect_exc('load of ' + what, rig.SErr, mod.load)
                    outs.append((f, r, deflen, length, cls.__name__))
        return Obs(steps=n, execs=n, outcomes=outs)

    def many_cases():
        for f, r in [('', 'h'), ('h', 'h'), ('fa', 'w'), ('fa', 'a'), ('f', 'fa'), ('p', 'hp'), ('w', 'pc'), ('fab', 'ab')]:
            for k in list(range(4, 66)) + [99, 100, 101, 127, 128, 129, 255, 256, 257] + ([511, 512, 513, 1000, 2000] if tier != 'quick' else []):
                for d in (-1, 0, 1):
                    yield [f, r, k, d]

    def many_run(c):
        f, r, k, d = c
        m = build(f, r, None)
        rig.definitions([m], 'one')
        length = m.length(k) + d
        ok = (length - m.fixed_len) % m.rep_len == 0
        repeats = (length - m.fixed_len) // m.rep_len
        for cls, addr in ((rig.device.Model, 70), (rig.client.ClientModel, 40072)):
            mod = cls(rig.device.Device(), MID, addr, length)
            what = 'definition %s/%s length %s' % (f, r, length)
            if ok:
                expect_ok('load of ' + what, mod.load)
                judge(m, mod, addr, repeats, what)
            else:
                expect_exc('load of ' + what, rig.SErr, mod.load)
        return Obs(steps=2, execs=2, outcomes=[(c, 0), (c, 1)])

    # only model 1 exists with a length one short of its definition
    LAYOUTS = {'common': lambda mid: ref.Model(mid, [P('Mn', 'string', 16), P('Md', 'string', 16), P('Opt', 'string', 8), P('Vr', 'string', 8),
                                                     P('SN', 'string', 16), P('DA', 'uint16', access='rw'), P('Pad', 'pad')]),
               'values': lambda mid: ref.Model(mid, [P('V%d' % i, 'uint16') for i in range(66)]),
               'repeats': lambda mid: ref.Model(mid, [P('A', 'uint16'), P('Pad', 'pad')], [P('R%d' % i, 'uint16') for i in range(64)]),
               'longer': lambda mid: ref.Model(mid, [P('Mn', 'string', 66), P('DA', 'uint16')]),
               'shorter': lambda mid: ref.Model(mid, [P('Mn', 'string', 64), P('DA', 'uint16')])}

    def legacy_cases():
        for layout in LAYOUTS:
            for mid in (1, 2, 10, 11, 101, MID, 65001):
                if mid == 1 and layout != 'common':       # there is one model 1
                    continue
                for n in range(0, 70):
                    yield [layout, mid, n]
                for n in (129, 130, 131, 132, 133, 65535):
                    yield [layout, mid, n]

    def legacy_run(c):
        layout, mid, n = c
        m = LAYOUTS[layout](mid)
        rig.definitions([m], 'one')
        steps = 0
        eff = n or m.len or m.fixed_len
        legacy = mid == 1 and n == 65
        ok, repeats = eff >= m.fixed_len or legacy, 0
        if m.repeating is not None and eff > m.fixed_len:
            ok = (eff - m.fixed_len) % m.rep_len == 0
            repeats = (eff - m.fixed_len) // m.rep_len
        for cls in (rig.device.Model, rig.client.ClientModel):
            mod = cls(rig.device.Device(), mid, 40004, n)
            what = '%s model %d of %d registers' % (layout, mid, n)
            if not ok:
                expect_exc('load of ' + what, rig.SErr, mod.load)
            else:
                expect_ok('load of ' + what, mod.load)
                judge(m, mod, 40004, repeats, what, legacy=legacy)
            steps += 1
        # and through a scan with a model behind it
        if 0 < n < 200:
            sim = SimDevice(ref.image(40000, [(mid, n, [0x4142] * n), (64999, 2, [1, 2])]))
            dev = rig.client_device(sim)
            expect_ok('scan', dev.scan)
            eq('models', [(x.id, x.load_error is None) for x in dev.models_list], [(mid, ok), (64999, False)])
            if ok:
                expect_ok('read', dev.models_list[0].read_points)
                last = dev.models_list[0].blocks[0].points_list[-1]
                if layout != 'common':
                    eq('last value', last.value, 0x4142)
                else:
                    eq('device address', dev.models_list[0].points['DA'].value, 0x4142)
            steps += 2
        return Obs(steps=steps, execs=steps, outcome=c)

    def unknown_cases():
        for mid in (2, 64005, 65534):
            for n in (0, 5):
                yield [mid, n]

    def unknown_run(c):
        rig.definitions([build('h', None, None)], 'one')
        for cls in (rig.device.Model, rig.client.ClientModel):
            expect_exc('load of a model without definition', rig.SErr, cls(rig.device.Device(), c[0], 10, c[1]).load)
        return Obs(steps=2, execs=2, outcome=c)

    # loading again: whatever happened before, the last load decides
    DEFS = {'none': None, 'small': ref.Model(MID, [P('A', 'uint16'), P('SF', 'sunssf'), P('B', 'int16', sf='SF')], [P('R', 'uint16', sf='SF')]),
            'other': ref.Model(MID, [P('C', 'string', 3)], [P('D', 'uint32'), P('E', 'uint32', sf='1')]),
            'large': ref.Model(MID, [P('V%d' % i, 'uint16') for i in range(140)] + [P('SF', 'sunssf')] + [P('W', 'uint32', sf='SF')]),
            'unresolved': ref.Model(MID, [P('A', 'uint16'), P('B', 'uint16', sf='NONE')])}

    def again_cases():
        depth = 3 if tier == 'quick' else 5
        for n in (3, 7, 11, 143):
            for k in range(1, depth + 1):
                for seq in itertools.product(DEFS, repeat=k):
                    yield [n, list(seq)]

    def again_run(c):
        n, seq = c
        steps = 0
        world.reset()
        regs = [(7 * i + 1) & 0xff for i in range(n)]
        sim = SimDevice(ref.image(40000, [(MID, n, regs)]))
        dev = rig.client_device(sim)
        dev.base_addr = 40000
        for cls, owner in ((rig.client.ClientModel, dev), (rig.device.Model, rig.device.Device())):
            mod = cls(owner, MID, 40004, n)
            for i, kind in enumerate(seq):
                m = DEFS[kind]
                rig.definitions([m] if m else [ref.Model(MID + 1, [P('X', 'uint16')])], 'again-' + kind)
                what = 'load %d of %s (%d registers)' % (i + 1, seq, n)
                repeats = 0
                ok = m is not None and kind != 'unresolved' and n >= m.fixed_len
                if ok and m.repeating is not None and n > m.fixed_len:
                    ok = (n - m.fixed_len) % m.rep_len == 0
                    repeats = (n - m.fixed_len) // m.rep_len
                steps += 1
                if not ok:
                    expect_exc(what, rig.SErr, mod.load)
                    continue
                expect_ok(what, mod.load)
                judge(m, mod, 40004, repeats, what)
                if owner is dev:
                    del sim.log[:]
                    expect_ok('read after ' + what, mod.read_points)
                    eq('registers requested after ' + what, sorted(r for q in sim.log for r in range(q[2], q[2] + q[3])), list(range(40004, 40004 + n)))
                    steps += 1
        return Obs(steps=steps, execs=steps, outcome=c)

    return [
        Family('again', again_cases, again_run, what='sequences of loads of one model object with definitions that come, change and go'),
        Family('layouts', cases, run, what='every definition instantiated with every length'),
        Family('many blocks', many_cases, many_run, what='models of up to 257 (thorough 2000) repeating blocks'),
        Family('common', legacy_cases, legacy_run, what='the 65 and 66 register common models, and other models and lengths around'),
        Family('unknown', unknown_cases, unknown_run, what='model ids without a definition'),
    ]
