import itertools

from .. import core, explore, ref, rig
from ..core import Family, Obs, Search, Violation, call, check, eq, expect_exc, expect_ok

PROP, LEVEL = 'C14', 'model_checking'
TECHNIQUE = ('explicit-state search over histories of additions, writes and refused operations on the real map object, compared after '
             'every step with a dictionary of registers over every range')
RULE = 'one state per distinct structure of the real map (merged) or history (unmerged); transitions are operations executed'
BOUNDS = ('maps over 6 (quick) or 7 (thorough) register positions, blocks and writes of up to 4 registers, 2 data patterns; merged '
          'search to depth 4 or 6, unmerged histories to depth 3 or 4; 4 starting maps x 3 base addresses; 2 blocks of 17 sizes (1 to 65537) at 18 offsets, 4 gaps, 4 base addresses')
NOTE = 'The reference dictionary is bound to the code by construction: every transition is executed on the real map and compared. '

mbmap = rig.mbmap
STARTS = ['empty', 'xml', 'hex', 'input']


class Map(object):
    def __init__(self, start, base, n):
        self.base, self.n, self.func = base, n, 3
        self.regs, self.next = {}, 0
        if start == 'input':
            self.func = 4
            self.m = mbmap.ModbusMap(1, mbmap.MBMAP_FUNC_INPUT, base)
        else:
            self.m = mbmap.ModbusMap(1, base_addr=base)
        if start == 'xml':
            import xml.etree.ElementTree as ET
            self.m.from_xml(element=ET.fromstring(
                '<mbmap addr="%d"><regs offset="1" len="1" type="u16">7</regs><regs len="1" type="u16">8</regs></mbmap>' % base))
            self.regs, self.next = {1: 7, 2: 8}, 3
        elif start == 'hex':
            import os
            p = os.path.join(core.scratch_dir('hex'), 'm.hex')
            with open(p, 'w') as f:
                f.write('00 09 00 0a\n')
            self.m.from_hex(p)
            self.regs, self.next = {0: 9, 1: 10}, 2

    def step(self, op, what):
        kind = op[0]
        if kind == 'add':
            _, off, cnt, how = op
            fn = (lambda: self.m.regs_add(addr=self.base + off, count=cnt)) if how == 'addr' else \
                (lambda: self.m.regs_add(offset=off, count=cnt))
            if off >= self.next and off >= 0:
                expect_ok(what, fn)
                for i in range(off, off + cnt):
                    self.regs[i] = 0
                self.next = off + cnt
            else:
                expect_exc(what, mbmap.ModbusMapError, fn)
        elif kind == 'write':
            _, off, cnt, pat = op
            vals = [(0x1100 * pat + 0x10 * (off + i) + pat) & 0xFFFF for i in range(cnt)]
            fn = lambda: self.m.write(self.base + off, ref.unwords(vals))
            if all(off + i in self.regs for i in range(cnt)):
                expect_ok(what, fn)
                self.regs.update((off + i, v) for i, v in enumerate(vals))
            else:
                expect_exc(what, mbmap.ModbusMapError, fn)
        elif kind == 'odd':
            expect_exc(what, mbmap.ModbusMapError, self.m.write, self.base + op[1], b'\x77' * op[2])
        elif kind == 'func':
            expect_exc(what, mbmap.ModbusMapError, self.m.read, self.base + op[1], op[2], 7 - self.func)
        self.compare(what)

    def compare(self, what):
        for off in range(-1, self.n + 2):
            for cnt in range(1, self.n + 3 - max(off, 0)):
                for op in (None, self.func):
                    k, v = call(self.m.read, self.base + off, cnt, op)
                    if all(off + i in self.regs for i in range(cnt)):
                        if k != 'ok':
                            raise Violation('%s: read of %d registers at %d fails: %s: %s' % (what, cnt, off, type(v).__name__, v), 'read refused')
                        want = ref.unwords([self.regs[off + i] for i in range(cnt)])
                        check(v == want, '%s: read of %d registers at %d gives %r, expected %s' % (what, cnt, off, v, want.hex()), 'read data')
                    elif k == 'ok':
                        raise Violation('%s: read of %d registers at %d accepted: %r' % (what, cnt, off, v), 'absent register read')
                    else:
                        check(isinstance(v, mbmap.ModbusMapError), '%s: read raises %s: %s' % (what, type(v).__name__, v), 'error type')


def ops(n, full=True):
    out = []
    for off in range(-1, n):
        for cnt in range(1, min(4, n - max(off, 0)) + 1):
            out.append(['add', off, cnt, 'addr' if off % 2 else 'offset'])
    for off in range(-1, n + 1):
        for cnt in range(1, 5 if full else 4):
            for pat in (1, 2) if full else (1,):
                out.append(['write', off, cnt, pat])
    out += [['odd', 0, 1], ['odd', 1, 3], ['func', 0, 1], ['func', 1, 2]]
    return out


def small(n):
    out = [['add', o, c, 'addr' if o % 2 else 'offset'] for o in range(0, n, 1) for c in (1, 2) if o + c <= n]
    out += [['write', o, c, 1 + (o + c) % 2] for o in range(0, n) for c in (1, 2, 3)]
    return out + [['odd', 0, 3], ['func', 0, 1], ['write', -1, 2, 1]]


def families(tier):
    thorough = tier == 'thorough'
    n = 7 if thorough else 6
    fams = []
    for start in STARTS:
        base = {'empty': 40000, 'xml': 0, 'hex': 65000, 'input': 1}[start]

        def run(hist, start=start, base=base):
            m = Map(start, base, n)
            for i, op in enumerate(hist):
                m.step(op, 'step %d (%s) of %s on %s' % (i, op, hist, start))
            if not hist:
                m.compare('start %s' % start)
            return explore.graph(m.m), len(hist), ops(n, full=thorough)
        fams.append(Search('search-' + start, run, 6 if thorough else 4, what='every operation from every distinct map', max_level=2000000))

    def hist_cases():
        s = small(4)
        for start in STARTS:
            for pre in itertools.product(range(len(s)), repeat=3 if thorough else 2):
                yield [start, list(pre)]

    def hist_run(c):
        start, pre = c
        s = small(4)
        outs = []
        for last in range(len(s)):
            h = [s[i] for i in pre + [last]]
            m = Map(start, 40000, 4)
            for i, op in enumerate(h):
                m.step(op, 'step %d (%s) of %s on %s' % (i, op, h, start))
            outs.append((c, last, tuple(sorted(m.regs.items()))))
        return Obs(steps=len(s) * len(h), execs=len(s), outcomes=outs)
    sizes = [1, 2, 3, 124, 125, 126, 127, 128, 129, 255, 256, 257, 32767, 32768, 65535, 65536, 65537] + ([999, 1000, 1024, 4096, 16384, 32769, 131072] if thorough else [])

    def size_cases():
        for base in (0, 1, 40000, 65535):
            for n in sizes:
                for off in [0] + sizes:
                    for gap in (0, 1, 125, 65536):
                        for how in ('offset', 'addr'):
                            yield [base, n, off, gap, how]

    def size_run(c):
        """Two blocks of n registers: looked at, written and refused around every edge."""
        base, n, off, gap, how = c
        what = 'map at %d with blocks of %d registers at %d and %d' % (base, n, off, off + n + gap)
        m = mbmap.ModbusMap(1, base_addr=base)
        starts = [off, off + n + gap]
        for o in starts:
            expect_ok(what, m.regs_add, **({'offset': o} if how == 'offset' else {'addr': base + o}), count=n)
        data = {o: bytearray(2 * n) for o in starts}

        def held(o, cnt):
            """Content of the reference, None where a register is not there."""
            out = b''
            while cnt:
                s = next((s for s in starts if s <= o < s + n), None)
                if s is None:
                    return None
                k = min(cnt, s + n - o)
                out += data[s][2 * (o - s):2 * (o - s + k)]
                o, cnt = o + k, cnt - k
            return out

        spans = set()
        for e in (starts[0], starts[0] + n, starts[1], starts[1] + n):
            for d in (-2, -1, 0, 1):
                for cnt in (1, 2, 3, 125, 126, n, n + 1, 2 * n):
                    spans.add((e + d, cnt))
        spans = sorted(spans)
        for i, (o, cnt) in enumerate(spans):
            words = bytes((7 * i + j) % 251 + 1 for j in range(2 * min(cnt, 300))) + b'\x55' * (2 * max(cnt - 300, 0))
            old = held(o, cnt)
            if old is None or o < 0:
                expect_exc('%s: write of %d registers at %d' % (what, cnt, o), mbmap.ModbusMapError, m.write, base + o, words)
                continue
            expect_ok('%s: write of %d registers at %d' % (what, cnt, o), m.write, base + o, words)
            for s in starts:
                a, b = max(s, o), min(s + n, o + cnt)
                if a < b:
                    data[s][2 * (a - s):2 * (b - s)] = words[2 * (a - o):2 * (b - o)]
            for s in starts:
                check(m.read(base + s, n) == data[s], '%s: block at %d after a write of %d registers at %d' % (what, s, cnt, o), 'read data')
        for o, cnt in spans:
            want = held(o, cnt)
            if want is None:
                expect_exc('%s: read of %d registers at %d' % (what, cnt, o), mbmap.ModbusMapError, m.read, base + o, cnt)
            else:
                check(expect_ok(what, m.read, base + o, cnt) == want, '%s: read of %d registers at %d' % (what, cnt, o), 'read data')
        return Obs(steps=3 * len(spans), outcome=c)
    fams.append(Family('sizes', size_cases, size_run, what='two blocks of every size at every distance, read and written around their edges'))
    fams.append(Family('histories', hist_cases, hist_run, what='all histories without merging', bound='depth 3 (thorough 4), 4 positions'))
    return fams
