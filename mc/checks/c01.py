import itertools

from .. import core, ref, rig, wire
from ..core import Family, Obs, Violation, call, check, eq, expect_exc, expect_ok
from ..ref import P
from ..wire import Healthy, SimDevice, world

PROP, LEVEL = 'C01', 'model_checking'
TECHNIQUE = ('explicit enumeration of all device chains, base address situations and small register images; a reference '
             'walker of the chain is compared with the real scan on every one')
RULE = 'one execution per (chain, base address, candidates below, transport) or register image'
BOUNDS = ('chains of <=3 (quick) or <=4 models over 9 kinds, 3 base addresses, every combination of 5 situations at the '
          'candidates tried before, 3 transports; all pairs of 6 situations at all bases over two scans; lists of <=3 of 6 base addresses given by the user; models of up to 65524 registers; chains of up to 300 models; images of <=5 (quick) or 6 words over 7 values after the SunS mark')

A = ref.Model(64001, [P('A', 'int16'), P('SF', 'sunssf'), P('T', 'string', 2)], name='alpha')
R = ref.Model(64002, [P('N', 'uint16'), P('V', 'int16')], [P('X', 'int32'), P('Y', 'int16')], name='rep')
KINDS = {              # letter: (id, length, loads)
    'A': (64001, 4, True), 'B': (64002, 2, True), 'R': (64002, 8, True), 'U': (64999, 3, False), 'Z': (64998, 0, False),
    'S': (64001, 3, False), 'M': (64002, 4, False), 'X': (64001, 6, True), 'L': (64997, 300, False),
}
BASES = [40000, 0, 50000]
SITUATIONS = ['absent', 'other', 'near', 'silent', 'exc']


def setup():
    rig.definitions([A, R])


class At(Healthy):
    def __init__(self, answers):
        self.answers = answers

    def choose(self, kind, menu, ctx=None):
        if kind == 'reply' and not ctx.write:
            return self.answers.get(int.from_bytes(ctx.pdu[1:3], 'big'))


def put_situation(regs, addr, sit, answers):
    if sit == 'other':
        regs.update({addr + i: 0x1000 + i for i in range(4)})
    elif sit == 'near':
        regs.update({addr: 0x5375, addr + 1: 0x6e54, addr + 2: 64001, addr + 3: 4})
    elif sit == 'silent':
        answers[addr] = 'drop'
    elif sit == 'exc':
        answers[addr] = ('exc', 4)


def chain_of(word):
    return [(KINDS[k][0], KINDS[k][1], [(i * 257 + 3) & 0x7FF for i in range(KINDS[k][1])]) for k in word]


def observe(dev):
    return [(m.id, int(m.addr), m.len, m.index, m.load_error is None) for m in dev.models_list]


def expected(word, base):
    out, count = [], {}
    a = base + 2
    for k in word:
        mid, ln, ok = KINDS[k]
        count[mid] = count.get(mid, 0) + 1
        out.append((mid, a + 2, ln, count[mid], ok))
        a += 2 + ln
    return out


def judge(dev, word, base, what):
    got, want = observe(dev), expected(word, base)
    check(got == want, '%s: models %r, expected %r' % (what, got, want), 'model list')
    eq('base address', dev.base_addr, base)
    by = {}
    for m in dev.models_list:
        by.setdefault(m.id, []).append(m)
    check(sorted(dev.models) == sorted(by) and all(
        len(dev.models[i]) == len(by[i]) and all(x is y for x, y in zip(dev.models[i], by[i])) for i in by),
        'models by id do not match the model list', 'models by id')


def words(n):
    for k in range(n + 1):
        for w in itertools.product('ABRUZSMXL', repeat=k):
            yield ''.join(w)


def families(tier):
    depth = 3 if tier == 'quick' else 4

    def chain_cases():
        for w in words(depth):
            for base in BASES:
                for t in rig.TRANSPORTS:
                    if len(w) == 4 and t == 'mapped':
                        continue
                    yield [w, base, t]

    def chain_run(c):
        w, base, t = c
        regs = ref.image(base, chain_of(w), end_len=None if len(w) % 2 else 0)
        dev = rig.client_device(SimDevice(regs), t)
        expect_ok('scan', dev.scan)
        judge(dev, w, base, 'scan')
        if t != 'mapped':
            rig.check_wire()
        expect_ok('scan again', dev.scan)
        judge(dev, w, base, 'scan again')
        dev.close()
        return Obs(steps=2, outcome=c)

    def many_cases():
        for base in BASES:
            for t in rig.TRANSPORTS:
                for unit in ['A', 'B', 'U', 'Z', 'S', 'R', 'AU', 'ABR', 'ZAX']:
                    for n in list(range(4, 34)) + [99, 100, 101, 127, 128, 129, 255, 256, 257, 300]:
                        if n < 34 or base == 40000 and t == 'tcp':
                            yield [(unit * n)[:n], base, t]

    def sit_cases():
        for t in rig.TRANSPORTS:
            sits = SITUATIONS if t != 'mapped' else SITUATIONS[:3]
            for w in ['', 'A', 'UA', 'RZR']:
                for n, base in enumerate(BASES):
                    for below in itertools.product(sits, repeat=n):
                        for delay in (None, 0.1):
                            yield [t, w, base, list(below), delay]
            for below in itertools.product(sits, repeat=3):
                yield [t, None, None, list(below), None]

    def sit_run(c):
        t, w, base, below, delay = c
        regs, answers = {}, {}
        if w is not None:
            regs = ref.image(base, chain_of(w))
        for a, s in zip(BASES, below):
            put_situation(regs, a, s, answers)
        regs.setdefault(1000, 1)
        dev = rig.client_device(SimDevice(regs), t, plan=At(answers))
        if w is None:
            expect_exc('scan of a device without map', rig.CErr, dev.scan, delay=delay)
            eq('models', dev.models_list, [])
            expect_exc('second scan of a device without map', rig.CErr, dev.scan)
        else:
            expect_ok('scan', dev.scan, delay=delay)
            judge(dev, w, base, 'scan')
            expect_ok('scan again', dev.scan)
            judge(dev, w, base, 'scan again')
        dev.close()
        return Obs(steps=2, outcome=c)

    SAYS = [(True, False), (1, 0), ('go', ''), ([0], []), (-1, None), (0.5, 0.0), (object(), None), (1j, ())]

    def prog_cases():
        for w in words(3):
            for stop in range(len(w) + 1):
                for t in (['tcp', 'rtu', 'mapped'] if len(w) < 3 else ['tcp']):
                    yield [w, stop, t]
                    # any value that is true goes on, any other declines
                    for says in range(1, len(SAYS) if len(w) < 3 else 1):
                        yield [w, stop, t, says]

    def prog_run(c):
        w, stop, t = c[:3]
        yes, no = SAYS[c[3] if len(c) > 3 else 0]
        calls = []

        def progress(msg):
            calls.append(msg)
            return yes if len(calls) <= stop else no
        dev = rig.client_device(SimDevice(ref.image(40000, chain_of(w))), t)
        if stop < len(w):
            expect_exc('declined scan', rig.CErr, dev.scan, progress)
            eq('progress calls', len(calls), stop + 1)
        else:
            expect_ok('scan with progress', dev.scan, progress)
            eq('progress calls', len(calls), len(w))
            judge(dev, w, 40000, 'scan')
        expect_ok('scan again', dev.scan)
        judge(dev, w, 40000, 'scan after a declined one')
        dev.close()
        return Obs(steps=2, outcome=c)

    def rescan_cases():
        sits = ['absent', 'other', 'exc', 'A', 'RU', 'cut'] + (['silent'] if tier != 'quick' else [])
        for first in itertools.product(sits, repeat=3):
            for second in itertools.product(sits, repeat=3):
                yield [list(first), list(second)]
        if tier != 'quick':
            for h in itertools.product(itertools.product(['absent', 'other', 'A', 'RU'], repeat=3), repeat=3):
                yield [list(x) for x in h]

    def rescan_run(c):
        sim = SimDevice({})
        dev = rig.client_device(sim, 'tcp', plan=At({}))
        seen = None
        for n, sits in enumerate(c):
            regs, answers, found = {1000: 1}, {}, {}
            for base, s in zip(BASES, sits):
                if s in ('A', 'RU', 'cut'):
                    w = 'A' if s == 'cut' else s
                    image = ref.image(base, chain_of(w), end_len=0)
                    if s == 'cut':
                        image = {a: v for a, v in image.items() if a < base + 8}
                    regs.update(image)
                    found[base] = (s, w)
                else:
                    put_situation(regs, base, s, answers)
            sim.regs = regs
            world.plan.answers = answers
            k, e = call(dev.scan)
            what = 'scan %d' % (n + 1)
            check(k == 'ok' or isinstance(e, rig.CErr), '%s: raised %s: %s' % (what, type(e).__name__, e), 'scan error type')
            order = [b for b in BASES if b in found]
            # the base address of an earlier scan may be tried alone, or first
            allowed = order[:1] if seen is None else [b for b in dict.fromkeys([seen] + order[:1]) if b in found]
            if k == 'ok':
                ok = [b for b in allowed if found[b][0] != 'cut' and observe(dev) == expected(found[b][1], b)]
                check(ok, '%s: models %r, expected those at %r' % (what, observe(dev), allowed), 'model list')
                judge(dev, found[ok[0]][1], ok[0], what)
            elif seen is None or seen in found:
                check(not allowed or any(found[b][0] == 'cut' for b in allowed), '%s: raised %s, although there are models at %r' % (what, e, allowed), 'scan')
            if allowed and (k == 'ok' or seen is None):
                seen = ok[0] if k == 'ok' else allowed[0]
        dev.close()
        return Obs(steps=len(c), outcome=c)

    ALPHA = [0, 1, 2, 64001, 4, 0xFFFF, 65533]

    def img_cases():
        for n in range(0, 6 if tier == 'quick' else 7):
            for ws in itertools.product(range(len(ALPHA)), repeat=n):
                yield [n, list(ws)]
        yield ['zeros', 400]
        yield ['ones', 65000]
        yield ['max', 0]

    def walk(regs, base):
        """('ok', models) or ('err', models so far)"""
        out = []
        if not all(base + i in regs for i in range(3)):
            return 'err', out
        a = base + 2
        while True:
            if a not in regs:
                return 'err', out
            if regs[a] == 0xFFFF:
                return 'ok', out
            if a + 1 not in regs:
                return 'err', out
            out.append((regs[a], a + 2, regs[a + 1]))
            a += 2 + regs[a + 1]

    def img_run(c):
        for base, t in ((40000, 'tcp'), (50000, 'rtu'), (0, 'mapped')):
            regs = {base: 0x5375, base + 1: 0x6e53}
            if c[0] == 'zeros':
                regs.update({base + 2 + i: 0 for i in range(c[1])})
            elif c[0] == 'ones':
                regs.update({base + 2 + i: 1 for i in range(2000)})
                regs[base + 3] = c[1] - base if c[1] > base else 60000
            elif c[0] == 'max':
                regs.update({a: 3 for a in range(base + 2, 65536)} if base else {a: 3 for a in range(2, 3000)})
            else:
                regs.update({base + 2 + i: ALPHA[x] for i, x in enumerate(c[1])})
            dev = rig.client_device(SimDevice(regs), t)
            kind, want = walk(regs, base)
            k, e = call(dev.scan)
            if k == 'exc' and not isinstance(e, rig.CErr):
                raise Violation('scan of %r raised %s: %s' % (c, type(e).__name__, e), 'scan error type')
            got = [(m.id, int(m.addr), regs[int(m.addr) - 1]) for m in dev.models_list]
            if kind == 'ok':
                check(k == 'ok' and got == want, 'scan of a complete chain: %s %r, expected %r' % (k, got, want), 'model list')
            elif k == 'ok':
                check(got == want, 'scan of an open chain: %r, expected %r or an error' % (got, want), 'model list')
            dev.close()
        return Obs(steps=3, execs=3, outcome=c)

    OWN = [0, 3, 1000, 40000, 40069, 65000]

    def list_cases():
        for n in range(1, 4):
            for bases in itertools.permutations(OWN, n):
                for k in range(3):
                    for at in itertools.combinations(OWN, k):
                        # maps do not overlap
                        if not (0 in at and 3 in at):
                            for t in rig.TRANSPORTS if tier != 'quick' or n < 3 else ['tcp']:
                                yield [list(bases), list(at), t]

    def list_run(c):
        bases, at, t = c
        regs = {2000: 1}
        for n, b in enumerate(at):
            regs.update(ref.image(b, chain_of('AU'[n:])))
        dev = rig.client_device(SimDevice(regs), t)
        dev.base_addr_list = list(bases)
        found = [b for b in bases if b in at]
        for what in ('scan', 'scan again'):
            if found:
                expect_ok(what, dev.scan)
                judge(dev, 'AU'[at.index(found[0]):], found[0], what)
            else:
                expect_exc(what + ' without a map at the given base addresses', rig.CErr, dev.scan)
                eq('models', dev.models_list, [])
        eq('list of base addresses', list(dev.base_addr_list), bases)
        dev.close()
        other = rig.client_device(SimDevice(ref.image(50000, chain_of('A'))), t)
        expect_ok('scan by another object', other.scan)
        judge(other, 'A', 50000, 'another object')
        other.close()
        return Obs(steps=3, outcome=c)

    def long_cases():
        sizes = [1, 124, 125, 126, 255, 256, 257, 4095, 4096, 32766, 32767, 32768, 32769, 40000, 65000, 65523, 65524]
        for base in BASES:
            for t in rig.TRANSPORTS:
                for n in sizes:
                    for m in [None] + sizes:
                        if base + 4 + n + (m + 2 if m else 0) + 8 <= 65536:
                            yield [base, t, n, m]

    def long_run(c):
        base, t, n, m = c
        regs = {base: 0x5375, base + 1: 0x6e53}
        a, want = base + 2, []
        for mid, ln in [(64997, n), (64996, m), (64001, 4)]:
            if ln:
                regs.update({a: mid, a + 1: ln})
                want.append((mid, a + 2, ln, 1, mid == 64001))
                a += 2 + ln
        regs.update({a - 4 + i: 7 for i in range(4)})
        regs[a] = 0xFFFF
        dev = rig.client_device(SimDevice(regs), t)
        expect_ok('scan', dev.scan)
        eq('models', observe(dev), want)
        expect_ok('read of the last model', dev.models_list[-1].read_points)
        eq('value', dev.models_list[-1].points['A'].value_base, 7)
        dev.close()
        return Obs(steps=2, outcome=c)

    # what looks like the mark: every combination of words that share bytes with it
    MARK = [b'Su', b'nS', b'un', b'\0S', b'S\0', b'SS', b'su', b'SU', b'NS', b'uS', b'Sn', b'\0\0', b'\xff\xff', b'\0\1']

    def mark_cases():
        for w in itertools.product(range(len(MARK)), repeat=3):
            for at in range(3):
                yield [list(w), at]

    def mark_run(c):
        w, at = c
        ws = [ref.words(MARK[i])[0] for i in w]
        real = MARK[w[0]] == b'Su' and MARK[w[1]] == b'nS'
        for t in rig.TRANSPORTS:
            # the mark (or what looks like it) at one base address, a map at the next one
            regs = {}
            if at < 2:
                regs.update(ref.image(BASES[at + 1], chain_of('A')))
            b = BASES[at]
            regs.update({b + i: x for i, x in enumerate(ws + [4, 7, 7, 7, 7, 0xFFFF, 0])})
            dev = rig.client_device(SimDevice(regs), t)
            if real:
                want = [] if ws[2] == 0xFFFF else [(ws[2], b + 4)]
                expect_ok('scan', dev.scan)
                eq('base address and models', (dev.base_addr, [(m.id, int(m.addr)) for m in dev.models_list]), (b, want))
            elif at < 2:
                expect_ok('scan', dev.scan)
                judge(dev, 'A', BASES[at + 1], 'scan past %r' % ws)
            else:
                expect_exc('scan of %r' % ws, rig.CErr, dev.scan)
                eq('models', dev.models_list, [])
            dev.close()
        return Obs(steps=3, execs=3, outcome=c)

    return [
        Family('marks', mark_cases, mark_run, setup, what='every combination of words that share bytes with the mark, at every base address'),
        Family('base lists', list_cases, list_run, setup, what='every list of base addresses given by the user, with maps at every pair of places'),
        Family('long models', long_cases, long_run, setup, what='models of every size class up to the end of the address space'),
        Family('chains', chain_cases, chain_run, setup, what='every chain, base address and transport, scanned twice'),
        Family('long chains', many_cases, chain_run, setup, what='chains of up to 300 models, with up to 300 instances of a model'),
        Family('candidates', sit_cases, sit_run, setup, what='every situation at the base addresses tried before the right one'),
        Family('rescans', rescan_cases, rescan_run, setup, what='every combination of situations at the base addresses, followed by a scan of every other one'),
        Family('progress', prog_cases, prog_run, setup, what='progress callback declining at every model, then a new scan'),
        Family('images', img_cases, img_run, setup, what='every small register image: a list or a client error'),
    ]
