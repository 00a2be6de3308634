import itertools
import math
import os
import struct

from .. import core, ref, rig, wire
from ..core import Family, Obs, Search, Violation, call, check, eq, expect_ok
from ..ref import P
from ..wire import SimDevice, world

PROP, LEVEL = 'C19', 'model_checking'
TECHNIQUE = ('exhaustive enumeration of device chains with every point read and assigned in every way, and a search over all histories of '
             'scripting operations run in lockstep with the same operations on an underlying device')
RULE = 'one evaluation per device chain or history; distinct by chain or by client and device state'
BOUNDS = ('models of up to 1001 repeating blocks; up to 101 instances of a model; chains of up to 3 (quick) or 4 (thorough) of 11 model kinds; histories of up to 4 (quick) or 5 (thorough) operations (RTU: one less) on a device of four '
          'models; every value point by attribute and item; all pairs of 43 texts')
ASSUMPTIONS = ['definitions whose names clash with each other or with attributes of the scripting objects are not judged',
               'the element 0 of a list of instances is not judged']

BASE = 40000
ALPHA = ref.Model(64701, [P('A', 'int16'), P('SF', 'sunssf'), P('T', 'string', 3), P('pd', 'pad'), P('X', 'uint16', sf='SF', access='rw'),
                          P('F', 'float32'), P('B', 'bitfield32')], name='alpha')
NONAME = ref.Model(64702, [P('A', 'int16'), P('B', 'uint32')])
REP = ref.Model(64703, [P('N', 'uint16'), P('A', 'int32', sf='SF'), P('SF', 'sunssf')],
                [P('A', 'int16', sf='RSF'), P('RSF', 'sunssf'), P('B', 'uint16', sf='SF'), P('pd', 'pad'), P('E', 'enum16')], name='rep', block_name='ch')
ANON = ref.Model(64704, [P('N', 'uint16')], [P('V', 'int16'), P('W', 'uint32')], name='anon')
ONLY = ref.Model(64705, [], [P('V', 'int16', access='rw')], name='only', block_name='unit')
COMMON = ref.Model(1, [P('Mn', 'string', 16), P('Md', 'string', 16), P('Opt', 'string', 8), P('Vr', 'string', 8), P('SN', 'string', 16),
                       P('DA', 'uint16', access='rw'), P('Pad', 'pad')], name='common')
MODELS = {m.id: m for m in (ALPHA, NONAME, REP, ANON, ONLY, COMMON)}
KINDS = {'a': (ALPHA, 0), 'n': (NONAME, 0), 'r': (REP, 2), 's': (REP, 0), 't': (REP, 3), 'q': (ANON, 2), 'o': (ONLY, 2), 'c': (COMMON, 0),
         'u': 64798, 'v': 64799, 'x': 'short'}

# the same model id under different definitions, in force when the device is built
VID = 64710
VARIANTS = {
    '0': VID,                                                        # no definition
    '1': (ref.Model(VID, [P('A', 'int16'), P('X', 'uint16')], name='va'), 0),
    '2': (ref.Model(VID, [P('A', 'uint32'), P('X', 'int16', sf='-1')], name='va'), 0),
    '3': (ref.Model(VID, [P('C', 'int16'), P('X', 'uint32'), P('T', 'string', 2)], name='vb'), 0),
    '4': (ref.Model(VID, [P('A', 'int16')], [P('A', 'int16'), P('Y', 'uint16')], name='va', block_name='ch'), 2),
    '5': (ref.Model(VID, [P('A', 'int16')], [P('Y', 'uint32'), P('Z', 'int16')], name='va', block_name='unit'), 1),
    '6': (ref.Model(VID, [P('A', 'int16'), P('C', 'uint16')], [P('Y', 'uint16')]), 1),
}
KINDS_OF = dict(KINDS)
KINDS.update(VARIANTS)
MANY = list(range(1, 33)) + [99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1001]
KINDS.update({'%s%d' % (k, n): (KINDS[k][0], n) for k in 'roq' for n in MANY})


def setup():
    rig.definitions(list(MODELS.values()))


def one(b, p, n):
    if p.type == 'sunssf':
        return ref.encode('sunssf', (-2, 1, 0, -1)[n % 4])


def chain(word):
    out = []
    for i, k in enumerate(word):
        m = KINDS[k]
        if m == 'short':
            out.append((ALPHA.id, 4, [5, 0, 1, 2]))
        elif isinstance(m, int):
            out.append((m, 3, [i, 8, 9]))
        else:
            m, reps = m
            out.append((m.id, m.length(reps), ref.fill(m, reps, 17 * i + 3, one)))
    return out


def name_of(k):
    m = KINDS[k]
    if m == 'short':
        return 'alpha'
    if isinstance(m, int):
        return 'model_%d' % m
    return m[0].name or 'model_%d' % m[0].id


def values(dev):
    return [[{pid: (p.value_base, p.value_sf, bool(p.dirty)) for pid, p in b.points.items()} for b in m.blocks] for m in dev.models_list]


def new_raw(p, n):
    if p.type == 'string':
        return 'n%d' % n
    if p.type == 'float32':
        return n + 0.5
    return n % 90 + 7


def walk(d, word):
    """[(kind, wrapper, model)] in device order, checking the lists of models and instances."""
    names = list(dict.fromkeys(name_of(k) for k in word))
    eq('names of the models', d.models, names)
    check(len(d.device.models_list) == len(word), 'scanned %d models' % len(d.device.models_list), 'models')
    by = {n: [i for i, k in enumerate(word) if name_of(k) == n] for n in names}
    found = {}
    for n, idx in by.items():
        w = d[n]
        check(w is getattr(d, n), 'model %s by item and by attribute differ' % n, 'item/attribute')
        if len(idx) == 1:
            check(not isinstance(w, list), 'single model %s is a list' % n, 'single model')
            found[idx[0]] = w
        else:
            check(isinstance(w, list) and len(w) == len(idx) + 1, '%d instances of %s: got %r' % (len(idx), n, w), 'list of instances')
            for j, i in enumerate(idx):
                found[i] = w[j + 1]
    eq('a name that is not there', d['nonesuch'], None)
    out = []
    for i, k in enumerate(word):
        w, m = found[i], d.device.models_list[i]
        check(w.model is m, 'instance %d of %s is another model of the device' % (m.index, m.id), 'wrong model')
        eq('name of the scripting model', w.name, name_of(k))
        out.append((k, w, m))
    return out


def get(obj, pid, how):
    return getattr(obj, pid) if how == 'attr' else obj[pid]


def put(obj, pid, how, v):
    if how == 'attr':
        setattr(obj, pid, v)
    else:
        obj[pid] = v


def block_objects(k, w):
    """[(block number, scripting object)] in every way the block can be reached."""
    m, reps = KINDS[k]
    out = [(0, w)]
    ways = ['repeating'] + ([m.block_name] if m.block_name else [])
    if reps:
        eq('repeating block name', w.repeating_name, m.block_name or 'repeating')
        for way in ways:
            l = getattr(w, way)
            check(len(l) == reps + 1, '%s has %d elements for %d blocks' % (way, len(l), reps), 'repeating blocks')
            for j in range(1, reps + 1):
                check(l[j].block is w.model.blocks[j], 'element %d of %s is another block' % (j, way), 'wrong block')
                eq('block name', l[j].name, m.block_name or 'repeating')
                out.append((j, l[j]))
    else:
        check(len(w.repeating) == 1, 'no repeating blocks, but %d elements' % len(w.repeating), 'repeating blocks')
    return out


def families(tier):
    thorough = tier == 'thorough'

    def chain_cases():
        for n in range(0, 5 if thorough else 4):
            for w in itertools.product(KINDS_OF, repeat=n):
                yield [''.join(w), rig.TRANSPORTS[len(set(w)) % 2]]
        for w in ('ar', 'rra', 'qaq'):
            yield [w, 'mapped']

    def size_cases():
        for t in rig.TRANSPORTS[:2]:
            for k in 'roq':
                for n in MANY:
                    if n <= 40 or k == 'o' and t == 'tcp':
                        yield [[k + str(n)], t]
                        if n <= 40:
                            yield [['a', k + str(n), k], t]
            for k in 'anxu':
                for n in (4, 9, 10, 11, 12, 20, 101):
                    yield [[k] * n, t]
                    if n < 40:
                        yield [list(('a' + k + 'o') * n), t]

    def chain_run(c):
        word, transport = c
        ch = chain(word)
        regs = ref.image(BASE, ch)
        sim = SimDevice(regs)
        d = rig.script_device(sim, transport)
        n = 0
        rows = walk(d, word)
        for k, w, m in rows:
            if isinstance(KINDS[k], tuple):
                for b, o in block_objects(k, w):
                    for p in KINDS[k][0].repeating if b else KINDS[k][0].fixed:
                        if p.type not in ('pad', 'sunssf'):
                            eq('value before reading', get(o, p.id, 'attr'), None)
        expect_ok('read', d.read)
        addr = BASE + 2
        for (k, w, m), (mid, ln, ws) in zip(rows, ch):
            if isinstance(KINDS[k], tuple):
                md, reps = KINDS[k]
                vals = md.expect(lambda a: regs[a], addr + 2, reps)
                objs = block_objects(k, w)
                for b, o in objs:
                    pts = [p for p in (md.repeating if b else md.fixed) if p.type not in ('pad', 'sunssf')]
                    eq('points of %s' % mid, list(o.points), [p.id for p in pts])
                    for p in pts:
                        want = vals[b, p.id][2]
                        for how in ('attr', 'item'):
                            got = get(o, p.id, how)
                            if not ref.close(got, want) or not core.same(got, m.blocks[b].points[p.id].value):
                                raise Violation('%s block %d point %s by %s: %r, expected %r' % (mid, b, p.id, how, got, want), 'value read')
                            n += 1
                before = values(d.device)
                for j, (b, o) in enumerate(objs):
                    for i, p in enumerate(p for p in (md.repeating if b else md.fixed) if p.type not in ('pad', 'sunssf')):
                        for h, how in enumerate(('attr', 'item')):
                            raw = new_raw(p, 3 * i + h + 10 * j)
                            sf = vals[b, p.id][1]
                            put(o, p.id, how, raw * math.pow(10, sf) if sf else raw)
                            want = [[dict(x) for x in bl] for bl in before]
                            want[m.device.models_list.index(m)][b][p.id] = (raw, sf, True)
                            got = values(d.device)
                            if repr(got) != repr(want):
                                raise Violation('assigning %s of block %d of %s by %s: values %r' % (p.id, b, mid, how, [
                                    (x, y) for x, y in zip(str(got).split('}'), str(want).split('}')) if x != y][:2]), 'assignment')
                            before = want
                            for how2 in ('attr', 'item'):
                                check(ref.close(get(o, p.id, how2), ref.scaled(raw, sf)), 'value assigned not shown by %s' % how2, 'value shown')
                            n += 1
                if transport != 'mapped':
                    del sim.applied[:]
                    expect_ok('write', w.write)
                    touched = sorted(a + i for a, vs in sim.applied for i in range(len(vs)))
                    own = sorted(addr + 2 + off + i for b, p, off in md.value_points(reps) for i in range(p.len))
                    eq('registers written by writing model %d' % mid, touched, own)
                    for b, p, off in md.value_points(reps):
                        pt = m.blocks[b].points[p.id]
                        data = ref.unwords([sim.regs[addr + 2 + off + i] for i in range(p.len)])
                        check(core.same(ref.decode(p.type, data), pt.value_base), 'written register of %s' % p.id, 'written')
                    # only this model is read
                    old = values(d.device)
                    ws2 = ref.fill(md, reps, 400, one)
                    for i, x in enumerate(ws2):
                        sim.regs[addr + 2 + i] = x
                    for i, (mid2, ln2, ws3) in enumerate(ch):
                        pass
                    k0 = len(world.requests)
                    expect_ok('read of a model', w.read)
                    for r in world.requests[k0:]:
                        a0, cnt = int.from_bytes(r.pdu[1:3], 'big'), int.from_bytes(r.pdu[3:5], 'big')
                        check(addr + 2 <= a0 and a0 + cnt <= addr + 2 + ln, 'reading model %d asks for %d+%d' % (mid, a0, cnt), 'read elsewhere')
                    now = values(d.device)
                    i = m.device.models_list.index(m)
                    check(all(repr(x) == repr(y) for j, (x, y) in enumerate(zip(old, now)) if j != i), 'reading a model changed another', 'other model')
                    vals2 = md.expect(lambda a: sim.regs[a], addr + 2, reps)
                    for b, o in objs:
                        for p in (md.repeating if b else md.fixed):
                            if p.type not in ('pad', 'sunssf'):
                                check(ref.close(get(o, p.id, 'item'), vals2[b, p.id][2]), 'value of %s after reading the model' % p.id, 'model read')
                    n += 2
            addr += 2 + ln
        expect_ok('description', str, d)
        expect_ok('close', d.close)
        if transport == 'tcp':
            eq('connections after close', len(world.open_conns()), 0)
        return Obs(steps=n + 2, outcome=c)

    # devices of one process built while different definitions of a model were in force
    def var_cases():
        for n in range(1, 5 if thorough else 4):
            for w in itertools.product(VARIANTS, repeat=n):
                yield [''.join(w)]

    def var_run(c):
        built, n = [], 0
        world.reset()
        for i, v in enumerate(c[0]):
            rig.definitions([x[0] for x in (KINDS['a'], KINDS[v]) if isinstance(x, tuple)] + [KINDS['r'][0]], 'variant' + v)
            word = 'ar'[i % 2] + v
            regs = ref.image(BASE, chain(word))
            host = '10.0.1.%d' % (i + 1)
            a = rig.attach(SimDevice(regs), 'tcp', 1, host)
            d = rig.client.SunSpecClientDevice(rig.client.TCP, 1, **a)
            expect_ok('read', d.read)
            built.append((d, word, regs))
            for j, (d, word, regs) in enumerate(built):
                what = 'device %d of definitions %s' % (j + 1, c[0][:i + 1])
                addr = BASE + 2
                for (k, w, m), (mid, ln, ws) in zip(walk(d, word), chain(word)):
                    if not isinstance(KINDS[k], tuple):
                        eq(what + ': points of a model without definition', list(w.points), [])
                    else:
                        md, reps = KINDS[k]
                        vals = md.expect(lambda a: regs[a], addr + 2, reps)
                        for b, o in block_objects(k, w):
                            pts = [p for p in (md.repeating if b else md.fixed) if p.type not in ('pad', 'sunssf')]
                            eq(what + ': points', list(o.points), [p.id for p in pts])
                            text = str(o)
                            for p in pts:
                                for how in ('attr', 'item'):
                                    got = get(o, p.id, how)
                                    check(ref.close(got, vals[b, p.id][2]), '%s: block %d point %s by %s: %r, expected %r' % (
                                        what, b, p.id, how, got, vals[b, p.id][2]), 'value under another definition')
                                    put(o, p.id, how, got)
                                    n += 1
                                check(p.id in text, '%s: %s missing from the text of the model' % (what, p.id), 'text')
                    addr += 2 + ln
                expect_ok('description', str, d)
        for d, word, regs in built:
            d.close()
        return Obs(steps=n, outcome=c)

    # every assignment over every value
    STRS = ref.Model(64712, [P('S', 'string', 16, access='rw')], [P('V', 'string', 16, access='rw')], name='strs', block_name='ch')
    NUMS = ref.Model(64711, [P('SF', 'sunssf'), P('X', 'int16', sf='SF', access='rw'), P('U', 'uint32', sf='SF', access='rw'), P('I', 'int16', access='rw'), P('F', 'float32', access='rw'),
                             P('C', 'int16', sf='-1', access='rw'), P('E', 'enum16', access='rw')],
                     [P('RSF', 'sunssf'), P('A', 'int16', sf='RSF', access='rw'), P('B', 'uint32', sf='SF', access='rw'), P('I', 'uint16', access='rw'), P('C', 'int32', sf='1', access='rw')],
                     name='nums', block_name='ch')
    RAW = [0, 1, 2, 3, 5, 7, 10, 20, 30, 50, 70, 100, 200, 500, 1000, 2000, 10000]

    def num_setup():
        rig.definitions([NUMS])

    def num_cases():
        for sf in (-2, -1, 0, 1, 2, None):
            for r in range(len(RAW)):
                for t in rig.TRANSPORTS[:2]:
                    yield [sf, r, t]

    def num_run(c):
        sf, r, t = c
        r = RAW[r]
        code = struct.pack('>h', -0x8000 if sf is None else sf)
        regs = ref.image(BASE, [(NUMS.id, NUMS.length(2), ref.fill(NUMS, 2, 0, lambda b, p, n: code if p.type == 'sunssf' else ref.encode(p.type, r)))])
        sim = SimDevice(regs)
        d = rig.script_device(sim, t)
        expect_ok('read', d.read)
        w, m = d.nums, d.device.models_list[0]
        n = 0
        for b, o in ((0, w), (1, w.ch[1]), (2, w.repeating[2])):
            for p in NUMS.repeating if b else NUMS.fixed:
                if p.type == 'sunssf':
                    continue
                f = (sf or 0) if p.sf in ('SF', 'RSF') else int(p.sf or 0)
                pt = m.blocks[b].points[p.id]
                for k, raw in enumerate(RAW):
                    for how in ('attr', 'item'):
                        now = r
                        put(o, p.id, how, r * math.pow(10, f) if f else r)
                        x = raw * math.pow(10, f) if f else raw
                        for x in [x] + ([int(x)] if f and x == int(x) else []):
                            put(o, p.id, how, x)
                            what = '%s of block %d with %d, scale factor %r, assigned %r by %s' % (p.id, b, now, f, x, how)
                            check(pt.value_base == raw, '%s: holds %r' % (what, pt.value_base), 'assignment')
                            check(ref.close(get(o, p.id, how), x), '%s: shows %r' % (what, get(o, p.id, how)), 'value shown')
                            now = raw
                            n += 1
                    if k % 6 == 5:
                        expect_ok('write', w.write)
                        off = next(a for bb, q, a in NUMS.points(2) if (bb, q.id) == (b, p.id))
                        data = ref.unwords([sim.regs[BASE + 4 + off + i] for i in range(p.len)])
                        check(ref.decode(p.type, data) == raw, '%s: register holds %s after write' % (what, data.hex()), 'written')
                put(o, p.id, 'attr', r * math.pow(10, f) if f else r)
        d.close()
        return Obs(steps=n, execs=n, outcomes=[[c, i] for i in range(n)])

    TEXTS = [x for x in ref.SHAPES if len(x) <= 32 and max(map(ord, x)) < 256]

    def put_setup():
        rig.definitions([STRS])

    def put_cases():
        for i in range(len(TEXTS)):
            for j in range(len(TEXTS)):
                yield [i, j]

    def put_run(c):
        """One text after the other, read and assigned in every way."""
        n = 0

        def there(x):
            return x.encode('latin-1').ljust(32, b'\0')
        a, b = [TEXTS[i] for i in c]
        sim = SimDevice(ref.image(BASE, [(STRS.id, STRS.length(2), ref.fill(STRS, 2, 0, lambda blk, p, k: there(a)))]))
        d = rig.script_device(sim, 'tcp')
        expect_ok('read', d.read)
        w, m = d.strs, d.device.models_list[0]
        for blk, o in ((0, w), (1, w.ch[1]), (2, w.repeating[2])):
            p = 'V' if blk else 'S'
            for how in ('attr', 'item'):
                eq('text %r read from block %d, shown by %s' % (a, blk, how), get(o, p, how), a)
            for how in ('attr', 'item'):
                put(o, p, how, b)
                eq('text %r assigned to block %d by %s: held' % (b, blk, how), m.blocks[blk].points[p].value_base, b)
                eq('text %r assigned to block %d by %s: shown' % (b, blk, how), (get(o, p, 'attr'), get(o, p, 'item')), (b, b))
                expect_ok('write', w.write)
                off = 16 * blk
                eq('text %r assigned to block %d by %s: registers' % (b, blk, how), ref.unwords([sim.regs[BASE + 4 + off + k] for k in range(16)]), there(b))
                put(o, p, how, a)
                expect_ok('write', w.write)
                n += 2
        d.close()
        return Obs(steps=n, execs=n, outcomes=[[c, i] for i in range(n)])

    # histories, in lockstep with an underlying device of the same content
    WORD = 'arrq'
    TARGETS = [(0, 0, 'X'), (1, 0, 'A'), (1, 1, 'A'), (2, 2, 'A'), (2, 1, 'B'), (3, 1, 'V')]

    def ops():
        out = []
        for t in TARGETS:
            for how in ('attr', 'item'):
                out.append(['set', list(t), how])
        for i in range(4):
            out += [['read', i], ['write', i]]
        return out + [['readall'], ['dev', 0], ['dev', 1]]
    OPS = ops()

    def change(sim, n):
        addr = BASE + 2
        for i, k in enumerate(WORD):
            m, reps = KINDS[k]
            for j, x in enumerate(ref.fill(m, reps, 1000 * (n + 1) + i, one)):
                sim.regs[addr + 2 + j] = x
            addr += 2 + m.length(reps)

    def hist_run(hist, transport):
        ch = chain(WORD)
        sim, sim2 = SimDevice(ref.image(BASE, ch)), SimDevice(ref.image(BASE, ch))
        d = rig.script_device(sim, transport)
        a = rig.attach(sim2, transport, name='10.0.0.2' if transport == 'tcp' else '/dev/simB')
        twin = rig.client.ClientDevice(rig.client.TCP if transport == 'tcp' else rig.client.RTU, 1, **a)
        expect_ok('scan', twin.scan)
        rows = walk(d, WORD)
        d.read()
        twin.read_points()
        wires = []
        for n, op in enumerate(hist):
            if op[0] == 'set':
                (i, b, pid), how = op[1], op[2]
                k, w, m = rows[i]
                o = w if b == 0 else (getattr(w, w.repeating_name) if n % 2 else w.repeating)[b]
                put(o, pid, how, 30 + 10 * n)
                twin.models_list[i].blocks[b].points[pid].value = 30 + 10 * n
            elif op[0] == 'read':
                expect_ok('read', rows[op[1]][1].read)
                twin.models_list[op[1]].read_points()
            elif op[0] == 'write':
                expect_ok('write', rows[op[1]][1].write)
                twin.models_list[op[1]].write_points()
            elif op[0] == 'readall':
                expect_ok('read', d.read)
                twin.read_points()
            else:
                change(sim, op[1])
                change(sim2, op[1])
            x, y = values(d.device), values(twin)
            if repr(x) != repr(y):
                raise Violation('after %r the scripting device has %r, the underlying one %r' % (
                    op, *next((p, q) for p, q in zip(x, y) if repr(p) != repr(q))), 'lockstep values')
            if sim.regs != sim2.regs:
                raise Violation('after %r the registers differ' % (op,), 'lockstep registers')
            for i, (k, w, m) in enumerate(rows):
                for b, o in block_objects(k, w):
                    for pid, p in m.blocks[b].points.items():
                        check(core.same(get(o, pid, 'attr'), p.value) and core.same(get(o, pid, 'item'), p.value), 'value of %s' % pid, 'shown')
        st = (repr(values(d.device)), sorted(sim.regs.items()))
        d.close()
        twin.close()
        return st, max(1, 2 * len(hist)), OPS

    depth = 5 if thorough else 4
    return [
        Family('chains', chain_cases, chain_run, setup, what='every point of every chain of models, in every way'),
        Family('sizes', size_cases, chain_run, setup, what='models of up to 1001 repeating blocks, and up to 101 instances of a model'),
        Family('definitions', var_cases, var_run, setup, what='devices built while different definitions of a model were in force',
               bound='all sequences of 3 (quick) or 4 (thorough) of 7 definitions'),
        Family('assignments', num_cases, num_run, num_setup, what='every one of 17 numbers assigned over every other, in every place and under 6 scale factors'),
        Family('texts', put_cases, put_run, put_setup, what='every pair of %d texts of all shapes, read and assigned in every place' % len(TEXTS)),
        Search('histories tcp', lambda h: hist_run(h, 'tcp'), depth, setup=setup, what='histories in lockstep with an underlying device, TCP'),
        Search('histories rtu', lambda h: hist_run(h, 'rtu'), depth - 1, setup=setup, what='histories in lockstep with an underlying device, RTU'),
    ]
