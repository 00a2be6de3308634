import itertools
import os
import struct

from .. import core, ref, rig, wire, wmodel
from ..core import Family, Obs, Search, Violation, call, check, eq, expect_ok
from ..ref import P
from ..wire import SimDevice, world
from . import c16, c24

PROP, LEVEL = 'C25', 'model_checking'
TECHNIQUE = ('explicit-state search over operation histories run in lockstep on the real client over the three transports, every step compared across '
             'transports and with a reference device; exhaustive enumeration of device images, register ranges and map layouts')
RULE = 'one state per distinct (registers, point states) reached; one evaluation per image, range or layout'
BOUNDS = ('27 operations on a device of 3 models with repeating blocks, merged search to depth 4 (quick) or 6 (thorough); all chains of up to 2 (3) of 9 model kinds '
          'x 3 base addresses; all register ranges of devices with holes; all splits of a map into regs elements')
NOTE = 'Every transition of the search is executed on the real client over each transport and compared with the reference device. '
ASSUMPTIONS = ['requests for no registers and requests through closed objects are not judged']

CErr, MErr = rig.CErr, rig.MErr
T = rig.TRANSPORTS
BASE, W, ADDR0, KEYS, POINTS = wmodel.BASE, wmodel.W, wmodel.ADDR0, wmodel.KEYS, wmodel.POINTS
EXTRA = {BASE + 90: 1, BASE + 91: 2, BASE + 93: 3}      # registers beyond the models, with holes


class Lockstep(object):
    def __init__(self):
        world.reset()
        self.dev, self.sim, self.regs = {}, {}, None
        for t in T:
            sim = wmodel.sim_device()
            sim.regs.update(EXTRA)
            self.sim[t] = sim
            a = rig.attach(sim, t, 1)
            self.dev[t] = rig.client.ClientDevice({'tcp': rig.client.TCP, 'rtu': rig.client.RTU, 'mapped': rig.client.MAPPED}[t], 1, **a)
            self.regs = dict(sim.regs)

    def device_regs(self, t):
        return wmodel.map_regs(self.dev[t]) if t == 'mapped' else self.sim[t].regs

    def model(self, t):
        return self.dev[t].models_list[1]

    def point(self, t, key):
        return self.model(t).blocks[key[0]].points[key[1]]

    def shown(self, t):
        return tuple((int(m.id), int(m.addr), int(m.len), m.load_error, tuple(
            tuple((pid, p.value_base, p.value_sf, p.dirty) for pid, p in sorted(b.points.items())) +
            tuple((pid, p.value_base) for pid, p in sorted(b.points_sf.items())) for b in m.blocks)) for m in self.dev[t].models_list)

    def all(self, what, fn):
        """fn(t) on each transport: the same outcome."""
        out = {t: call(fn, t) for t in T}
        for t in T:
            k, v = out[t]
            if k == 'exc' and not isinstance(v, CErr):
                raise Violation('%s over %s: raised %s: %s' % (what, t, type(v).__name__, v), 'error type')
        kinds = {t: out[t][0] for t in T}
        check(len(set(kinds.values())) == 1, '%s: %r' % (what, {t: (k, str(v)[:80]) for t, (k, v) in out.items()}), 'transports differ in outcome')
        if out['tcp'][0] == 'ok':
            vals = [bytes(v) if isinstance(v, (bytes, bytearray)) else None for v in (out[t][1] for t in T)]
            check(len(set(vals)) == 1, '%s: results %r' % (what, vals), 'transports differ in result')
            return 'ok', vals[0]
        return 'exc', None

    def compare(self, what):
        for t in T:
            got = self.device_regs(t)
            diff = {a: (got.get(a), self.regs.get(a)) for a in set(got) | set(self.regs) if got.get(a) != self.regs.get(a)}
            check(not diff, '%s over %s: registers (got, expected) %r' % (what, t, dict(sorted(diff.items())[:6])), 'registers')
        s = [self.shown(t) for t in T]
        for t, x in zip(T[1:], s[1:]):
            check(x == s[0], '%s: models and points over %s: %r, over %s: %r' % (what, t, x, T[0], s[0]), 'transports differ in points')
        rig.check_wire()
        return s[0]

    def pending(self):
        return [k for k in KEYS if self.point('tcp', k).dirty]

    def step(self, op, what):
        kind = op[0]
        if kind == 'assign':
            key, raw = KEYS[op[1]], wmodel.raw_value(KEYS[op[1]], op[2])
            sf = self.point('tcp', key).value_sf
            v = raw * 10.0 ** sf if sf else raw
            self.all(what, lambda t: setattr(self.point(t, key), 'value', v))
        elif kind in ('write model', 'write point'):
            keys = self.pending() if kind == 'write model' else [KEYS[op[1]]]
            new = {}
            for k in keys:
                p = self.point('tcp', k)
                if p.value_base is not None:
                    off, d = POINTS[k]
                    new.update({ADDR0 + off + i: w for i, w in enumerate(ref.words(ref.encode(d.type, p.value_base, d.len)))})
            if kind == 'write model':
                r = self.all(what, lambda t: self.model(t).write_points())
            else:
                if self.point('tcp', keys[0]).value_base is None:
                    return
                r = self.all(what, lambda t: self.point(t, keys[0]).write())
            check(r[0] == 'ok', '%s: refused on every transport' % what, 'write refused')
            self.regs.update(new)
        elif kind == 'read model':
            r = self.all(what, lambda t: self.model(t).read_points())
            check(r[0] == 'ok', '%s: refused on every transport' % what, 'read refused')
        elif kind == 'read all':
            r = self.all(what, lambda t: self.dev[t].read_points())
            check(r[0] == 'ok', '%s: refused on every transport' % what, 'read refused')
        elif kind == 'scan':
            r = self.all(what, lambda t: self.dev[t].scan())
            check(r[0] == 'ok', '%s: fails on every transport' % what, 'scan fails')
        elif kind == 'raw read':
            self.raw_read(BASE + op[1], op[2], what)
        elif kind == 'raw write':
            self.raw_write(BASE + op[1], [op[3] + i for i in range(op[2])], what)
        elif kind == 'device':
            # the device itself changes registers
            a, v = ADDR0 + op[1], op[2]
            for t in T:
                if t == 'mapped':
                    self.dev[t].modbus_device.modbus_map.write(a, struct.pack('>H', v))
                else:
                    self.sim[t].regs[a] = v
            self.regs[a] = v

    def raw_read(self, a, n, what):
        r = self.all(what, lambda t: self.dev[t].read(a, n))
        if all(a + i in self.regs for i in range(n)):
            check(r[0] == 'ok', '%s: refused on every transport' % what, 'read refused')
            eq('%s: data' % what, r[1], ref.unwords([self.regs[a + i] for i in range(n)]))
        else:
            check(r[0] == 'exc', '%s: registers the device does not have were read' % what, 'absent registers read')

    def raw_write(self, a, vals, what):
        r = self.all(what, lambda t: self.dev[t].write(a, ref.unwords(vals)))
        if all(a + i in self.regs for i in range(len(vals))):
            check(r[0] == 'ok', '%s: refused on every transport' % what, 'write refused')
            self.regs.update({a + i: v for i, v in enumerate(vals)})
        else:
            check(r[0] == 'exc', '%s: registers the device does not have were written' % what, 'absent registers written')

    def close(self):
        for t in T:
            self.dev[t].close()


def op_list():
    out = [['scan'], ['read model'], ['read all'], ['write model']]
    for i, k in enumerate(KEYS):
        if k in ((0, 'A'), (0, 'S'), (0, 'X'), (1, 'V'), (2, 'Y')):
            out.append(['assign', i, 0])
            out.append(['assign', i, 1])
            if k in ((0, 'X'), (1, 'V')):
                out.append(['write point', i])
    sf = [off for b, p, off in W.points(2) if p.id == 'SF'][0]
    out += [['device', sf, 0], ['device', sf, 0x8000], ['device', 1, 77]]
    out += [['raw read', 6, 4], ['raw read', 89, 2], ['raw write', 90, 2, 50], ['raw write', 91, 3, 60], ['raw write', 8, 2, 70], ['raw write', 93, 2, 80], ['raw write', 89, 2, 90]]
    return out


OPS = op_list()


def families(tier):
    thorough = tier == 'thorough'

    def run(hist):
        c = Lockstep()
        c.step(['scan'], 'scan')
        c.step(['read model'], 'first read')
        for i, op in enumerate(hist):
            what = 'step %d (%s) of %s' % (i + 1, op, hist)
            c.step(op, what)
            s = c.compare(what)
        if not hist:
            s = c.compare('start')
        state = (s, tuple(sorted(c.regs.items())))
        c.close()
        return state, 3 * (len(hist) + 2), OPS

    # images
    def image_cases():
        n = len(c24.KINDS)
        for k in range(4 if thorough else 3):
            for ks in itertools.product(range(n), repeat=k):
                for base in (40000, 0, 50000):
                    yield [list(ks), base]

    def load(t, sim, layer):
        a = rig.attach(sim, t, 1)
        kind = {'tcp': rig.client.TCP, 'rtu': rig.client.RTU, 'mapped': rig.client.MAPPED}[t]
        if layer == 'client':
            d = rig.client.ClientDevice(kind, 1, **a)
            expect_ok('scan over %s' % t, d.scan)
            expect_ok('read over %s' % t, d.read_points)
            return d
        s = expect_ok('device over %s' % t, rig.client.SunSpecClientDevice, kind, 1, **a)
        expect_ok('read over %s' % t, s.read)
        return s

    def describe(d):
        return [(int(m.id), int(m.addr), int(m.len), int(m.index), m.load_error, [
            [(pid, p.value_base, p.value_sf, repr(p.value)) for pid, p in sorted(b.points.items())] +
            [(pid, p.value_base) for pid, p in sorted(b.points_sf.items())] for b in m.blocks]) for m in d.models_list]

    def script_view(s):
        out = []
        for name in s.models:
            m = getattr(s, str(name))
            for mm in (m if isinstance(m, list) else [m]):
                if mm is not None:
                    for b in [mm] + [x for x in (getattr(mm, 'repeating', None) or []) if x is not None]:
                        out.append((name, [(p, repr(getattr(b, p))) for p in sorted(mm.points if b is mm else b.points)]))
        check(out or not s.models, 'nothing shown for %r' % s.models, 'harness')
        return out

    def image_run(c):
        ks, base = c
        chain = c24.chain_of(ks)
        regs = ref.image(base, chain)
        world.reset()
        devs = {t: load(t, SimDevice(regs), 'client') for t in T}
        d = {t: describe(devs[t]) for t in T}
        for t in T[1:]:
            check(d[t] == d['tcp'], 'models %r at %d: %s shows %r, tcp %r' % (ks, base, t, d[t], d['tcp']), 'transports differ')
        eq('models %r: found' % (ks,), [x[0] for x in d['tcp']], [x[0] for x in chain])
        for a, b in itertools.permutations(T, 2):
            eq('comparison of the devices over %s and %s' % (a, b), devs[a].not_equal(devs[b]), False)
        if len(ks) <= 2 and 8 not in ks:
            world.reset()
            v = {t: script_view(load(t, SimDevice(regs), 'script')) for t in T}
            for t in T[1:]:
                check(v[t] == v['tcp'], 'models %r at %d: scripting device over %s shows %r, tcp %r' % (ks, base, t, v[t], v['tcp']), 'transports differ')
        return Obs(steps=3 * (len(ks) + 1), outcome=c)

    # register ranges of devices with holes
    LAYOUTS = [[(0, 6)], [(2, 3), (7, 4)], [(0, 2), (3, 1), (5, 2), (9, 3)], [(65530, 6)], [(65532, 3)], [(40000, 130), (40131, 130)], [(100, 260)]]

    def range_cases():
        for i, runs in enumerate(LAYOUTS):
            lo, hi = runs[0][0], runs[-1][0] + runs[-1][1]
            if hi - lo < 20:
                for a in range(max(0, lo - 1), min(hi + 1, 65536)):
                    for n in range(1, hi - a + 3):
                        yield [i, a, n]
            else:
                edges = sorted({e + d for s, n in runs for e in (s, s + n) for d in (-2, -1, 0, 1)})
                for a in edges + [lo + 1, lo + 60]:
                    for n in (1, 2, 3, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 250, 251, 259, 260, 261, 262, 300):
                        yield [i, a, n]

    def range_run(c):
        i, a, n = c
        regs = {s + k: (s * 7 + k * 13 + 5) & 0xFFFF for s, cnt in LAYOUTS[i] for k in range(cnt)}
        ls = Lockstep.__new__(Lockstep)
        world.reset()
        ls.sim = {t: SimDevice(regs) for t in T}
        ls.dev = {t: rig.client.ClientDevice({'tcp': rig.client.TCP, 'rtu': rig.client.RTU, 'mapped': rig.client.MAPPED}[t], 1, **rig.attach(ls.sim[t], t, 1)) for t in T}
        ls.regs = dict(regs)
        what = 'registers %d..%d of %r' % (a, a + n - 1, LAYOUTS[i])
        fits = all(a + k in regs for k in range(n))
        ls.raw_read(a, n, 'read ' + what)
        if fits or n <= 123:
            vals = [(k * 31 + 9) & 0xFFFF for k in range(n)]
            ls.raw_write(a, vals, 'write ' + what)
            for t in T:
                got = ls.device_regs(t)
                check(got == ls.regs, 'write %s over %s: registers %r' % (what, t, {x: (got.get(x), ls.regs.get(x)) for x in set(got) | set(ls.regs) if got.get(x) != ls.regs.get(x)}), 'registers')
            ls.raw_read(a, n, 'second read ' + what)
        ls.close()
        return Obs(steps=9, outcome=c)

    # map documents of the same device, split in every way
    def split_cases():
        regs = ref.image(40000, split_chain())
        n = len(regs)
        for a in range(1, n):
            for b in range(a, n):
                yield [a, b]
        for k in range(1, n + 1):
            for func in range(3):
                yield [-k, func]

    def split_chain():
        return c24.chain_of([3, 1, 6])

    def split_run(c):
        a, b = c
        chain = split_chain()
        regs = ref.image(40000, chain)
        addrs = sorted(regs)
        if a > 0:
            cuts = sorted({0, a, b, len(addrs)})
        else:
            cuts = sorted(set(range(0, len(addrs), -a)) | {len(addrs)})
        form = (a + b) % 3
        # the function a map is served with: holding registers, input registers or not said
        s = '<mbmap addr="40000"%s>' % ['', ' func="holding"', ' func="input"'][b if a < 0 else 1]
        for x, y in zip(cuts, cuts[1:]):
            ws = [regs[k] for k in addrs[x:y]]
            off = '' if form == 1 else ' offset="%d"' % x
            if form == 2 and len(ws) == 1:
                s += '<regs%s len="1" type="u16">%d</regs>' % (off, ws[0])
            else:
                s += '<regs%s len="%d" type="hexstr">%s</regs>' % (off, len(ws), ''.join('%04X ' % w for w in ws) if form == 0 else ''.join('%04x' % w for w in ws))
        s += '</mbmap>'
        world.reset()
        f = os.path.join(core.scratch_dir('split'), 'split.xml')
        with open(f, 'w') as h:
            h.write(s)
        m = rig.client.ClientDevice(rig.client.MAPPED, 1, name=f)
        bytes_of = lambda x, y: b''.join(struct.pack('>H', regs[k]) for k in addrs[x:y])  # noqa: E731
        for what, d in (('modbus device', rig.modbus.ModbusClientDeviceMapped(1, f)), ('client device', m)):
            for x, y in [(0, len(addrs)), (1, 2)] + list(zip(cuts, cuts[1:])):
                eq('registers %d..%d read through a %s of %s' % (x, y - 1, what, s), expect_ok('read', d.read, addrs[x], y - x), bytes_of(x, y))
        expect_ok('scan of %s' % s, m.scan)
        expect_ok('read of %s' % s, m.read_points)
        t = load('tcp', SimDevice(regs), 'client')
        check(describe(m) == describe(t), 'map %s shows %r, device %r' % (s, describe(m), describe(t)), 'transports differ')
        for model in m.models_list[:2]:
            for blk in model.blocks:
                for p in blk.points_list:
                    if p.point_type.type == 'int16' and p.value_base is not None:
                        p.value_base, p.dirty = 321, True
                        for k, q in enumerate(x for x in t.models_list if x.id == model.id and x.index == model.index):
                            z = q.blocks[blk.index].points[p.point_type.id]
                            z.value_base, z.dirty = 321, True
            expect_ok('write to %s' % s, model.write_points)
        for model in t.models_list[:2]:
            expect_ok('write', model.write_points)
        sim = world.tcp[rig.HOST, rig.PORT][1].regs
        got = wmodel.map_regs(m)
        check(got == sim, 'after the same writes to %s: %r' % (s, {k: (got.get(k), sim.get(k)) for k in set(got) | set(sim) if got.get(k) != sim.get(k)}), 'registers')
        return Obs(steps=8, outcome=c)

    return [
        Search('lockstep', run, 6 if thorough else 4, setup=wmodel.setup, what='operation histories on three transports in lockstep', max_level=3000000),
        Family('images', image_cases, image_run, c24.setup, what='chains of models at each base address'),
        Family('ranges', range_cases, range_run, what='every register range of devices with holes, read and written'),
        Family('splits', split_cases, split_run, c24.setup, what='map documents of one device split in every way'),
    ]
