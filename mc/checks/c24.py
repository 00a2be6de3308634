import contextlib
import io
import itertools
import os
import re
import struct
import sys

from .. import core, ref, rig, wire
from ..core import Family, Obs, Violation, call, check, eq
from ..ref import P
from ..wire import ByIndex, SimDevice, world
from . import c16

PROP, LEVEL = 'C24', 'fault_enumeration'
TECHNIQUE = ('exhaustive enumeration of device contents, device configurations, command-line options and faults at every interaction with the environment, '
             'running the real script over simulated devices and comparing its output with an independent reading of the registers')
RULE = 'one evaluation per run of the command; distinct by configuration and output'
BOUNDS = ('all register patterns of every point of a model with 20 types; all chains of up to 2 (quick) or 3 (thorough) of 9 model kinds on 3 transports; all labels and units '
          'of a list; all combinations of options; every fault at every interaction (pairs in the thorough tier); texts of 37 shapes on 3 transports')
ASSUMPTIONS = ['points of models that do not load, padding and column widths are not judged, nor control characters in strings']

ALL, REP, FIX, COMMON, ONLY, UNKNOWN = c16.ALL, c16.REP, c16.FIX, c16.COMMON, c16.ONLY, c16.UNKNOWN
LABELS = [None, 'A label', 'with (parentheses)', 'caf\u00e9 %s %d', 'x' * 60, '100% {0} {x', '}{} \\n %']
UNITS = [None, 'W', 'kWh', '%', 'a b c d e f g h', '\u00b0C', '%s', '{}', '{0}%d\\']
LAB = ref.Model(64410, [P('SF', 'sunssf', label='scale')] + [P('L%d' % i, 'int16', label=l, units=u, sf='SF') for i, (l, u) in enumerate(itertools.product(LABELS, UNITS))],
                [P('R%d' % i, t, label=l, units=u) for i, (t, l, u) in enumerate([('bitfield16', 'flags', None), ('bitfield32', None, 'bits'), ('enum16', 'mode', 'm'),
                                                                                  ('uint16', None, None)])], name='lab', label='A model (labelled) 100% {} %s')
MODELS = dict(c16.MODELS)
MODELS[LAB.id] = LAB
SOURCE = None


def setup():
    global SOURCE
    rig.definitions(list(c16.MODELS.values()) + [LAB])
    with open(os.path.join(core.REPO, 'scripts', 'suns.py')) as f:
        SOURCE = compile(f.read(), 'suns.py', 'exec')


def run_command(argv):
    """(exit status, standard output). A crash is a violation."""
    out, err = io.StringIO(), io.StringIO()
    old = sys.argv
    sys.argv = ['suns.py'] + [str(a) for a in argv]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            kind, v = call(exec, SOURCE, {'__name__': '__main__', '__file__': os.path.join(core.REPO, 'scripts', 'suns.py')})
    finally:
        sys.argv = old
    if kind == 'ok':
        return 0, out.getvalue()
    if isinstance(v, SystemExit):
        return (0 if v.code is None else v.code), out.getvalue()
    raise Violation('suns %s crashed with %s: %s' % (' '.join(map(str, argv)), type(v).__name__, v), 'crash')


def squeeze(s):
    return ' '.join(s.split())


def want_report(chain):
    """[(header, [(prefix, kind, value, units)] or None)]"""
    regs, addr, out = ref.image(40000, chain), 40002, []
    for mid, ln, ws in chain:
        m = MODELS.get(mid)
        head = 'model: (%d)' % mid if m is None or not m.label else 'model: %s (%d)' % (m.label, mid)
        if m is None:
            out.append((head, []))
        elif ln < m.fixed_len and mid != 1:
            out.append((None, None))
        else:
            reps = (ln - m.fixed_len) // m.rep_len if m.rep_len else 0
            vals = m.expect(lambda a: regs.get(a, 0), addr + 2, reps)
            lines = []
            for b, p, off in m.value_points(reps):
                v = vals[b, p.id][2]
                if v is not None:
                    pre = ('%02d:' % b if b else '') + ('%s (%s):' % (squeeze(p.label), p.id) if p.label else '(%s):' % p.id)
                    lines.append((pre, p.type, v, squeeze(p.units or '')))
            out.append((squeeze(head), lines))
        addr += 2 + ln
    return out


def check_report(text, chain, what):
    want = want_report(chain)
    got, cur = [], None
    for line in text.splitlines():
        s = squeeze(line)
        if not s:
            continue
        if s.startswith('model:'):
            cur = []
            got.append((s, cur))
        elif cur is None:
            check(s.startswith('Timestamp:'), '%s: unexpected line %r' % (what, line), 'unexpected line')
        else:
            cur.append((s, line))
    eq('%s: number of models reported' % what, len(got), len(want))
    n = 0
    for (gh, gl), (wh, wl), (mid, ln, ws) in zip(got, want, chain):
        if wh is None:
            check('(%d)' % mid in gh, '%s: model header %r' % (what, gh), 'header')
            continue
        eq('%s: model header' % what, gh, wh)
        for g, w in itertools.zip_longest(gl, wl):
            n += 1
            g, raw = g or (None, None)
            check(w is not None, '%s: model %d: line for a point that is not there: %r' % (what, mid, g), 'extra line')
            check(g is not None, '%s: model %d: nothing reported for %r' % (what, mid, w), 'missing line')
            pre, t, v, units = w
            check(g.startswith(pre), '%s: model %d: line %r, expected %r' % (what, mid, g, w), 'line')
            rest = g[len(pre):].strip()
            check(rest.endswith(units), '%s: model %d: line %r: units %r' % (what, mid, g, units), 'units')
            tok = rest[:len(rest) - len(units)] if units else rest
            if units and isinstance(v, (int, float)):
                check(tok.endswith(' '), '%s: model %d: line %r: units %r' % (what, mid, g, units), 'units')
            tok = tok.strip()
            if t == 'bitfield16':
                good = tok == '0x%04x' % v
            elif t == 'bitfield32':
                good = tok == '0x%08x' % v
            elif isinstance(v, float):
                try:
                    good = ref.close(float(tok), v)
                except ValueError:
                    good = False
            else:
                good = tok == squeeze(str(v))
                if isinstance(v, str) and len((v + 'x').splitlines()) == 1:
                    good = good and v.rstrip('\0') in raw
            check(good, '%s: model %d: line %r, expected value %r' % (what, mid, g, v), 'value')
    return n


def args_for(transport, a, unit=1):
    if transport == 'tcp':
        return ['-i', a['ipaddr'], '-a', unit]
    if transport == 'rtu':
        return ['-t', 'rtu', '-p', a['name'], '-a', unit]
    return ['-t', 'mapped', '-m', a['name']]


def report(chain, transport, what, base=40000, plan=None):
    sim = SimDevice(ref.image(base, chain))
    a = rig.fresh(sim, transport, 1, plan)
    code, out = run_command(args_for(transport, a))
    eq('%s: exit status (%s)' % (what, out[-200:]), code, 0)
    n = check_report(out, chain, what)
    check(not sim.applied, '%s: the command wrote to the device' % what, 'wrote')
    rig.check_wire()
    return n, out


KINDS = [(REP, 0), (REP, 1), (REP, 2), (FIX, 0), (COMMON, 0), (ONLY, 2), ('unknown', 0), (LAB, 1), ('short', 0)]


def chain_of(ks, seed=3):
    out = []
    for i, k in enumerate(ks):
        m, reps = KINDS[k]
        if m == 'unknown':
            out.append((UNKNOWN, 3, [7, 8, 9]))
        elif m == 'short':
            out.append((FIX.id, 1, [7]))
        else:
            out.append((m.id, m.length(reps), ref.fill(m, reps, seed + i, c16.sfix)))
    return out


def families(tier):
    thorough = tier == 'thorough'

    def sf_zero(b, p, n):
        return struct.pack('>h', -1) if p.type == 'sunssf' else None

    def value_cases():
        for i, p in enumerate(ALL.fixed):
            if p.type != 'pad':
                for j in range(len(c16.patterns(p))):
                    yield [i, j]

    def value_run(c):
        i, j = c
        p = ALL.fixed[i]

        def which(b, q, n):
            return c16.patterns(q)[j] if q is p else sf_zero(b, q, n)
        n, out = report([(ALL.id, ALL.length(), ref.fill(ALL, 0, 3, which))], 'tcp', 'point %s with %s' % (p.id, c16.patterns(p)[j].hex()))
        return Obs(steps=n, outcome=c)

    STRS = ref.Model(64498, [P('S', 'string', 16)], [P('V', 'string', 16)], name='strs')
    LINES = [x for x in ref.SHAPES if len(x) <= 32 and max(map(ord, x)) < 256 and x.strip() and len((x + 'x').splitlines()) == 1]

    def shape_setup():
        setup()
        MODELS[STRS.id] = STRS
        rig.definitions(list(MODELS.values()))

    def shape_cases():
        for i in range(len(LINES)):
            for t in rig.TRANSPORTS:
                yield [i, t]

    def shape_run(c):
        def there(b, p, k):
            return LINES[(c[0] + k) % len(LINES)].encode('latin-1').ljust(32, b'\0')
        n, out = report([(STRS.id, STRS.length(len(LINES)), ref.fill(STRS, len(LINES), 0, there))], c[1], 'texts, beginning with %r' % LINES[c[0]])
        return Obs(steps=n, outcome=c)

    # all points of a block implemented or not, in every combination
    def mask_cases():
        for reps in (1, 2):
            n = len([1 for b, p, off in REP.points(reps) if p.type != 'pad'])
            if reps == 1 or thorough:
                for mask in range(1 << n):
                    yield [reps, mask]

    def mask_run(c):
        reps, mask = c
        k = [0]

        def which(b, p, n):
            if p.type == 'pad':
                return None
            k[0] += 1
            if mask >> (k[0] - 1) & 1:
                return {'int16': b'\x80\0', 'uint16': b'\xff\xff', 'string': bytes(2 * p.len), 'sunssf': b'\x80\0', 'bitfield32': b'\xff\xff\xff\xff'}[p.type]
            return struct.pack('>h', -2) if p.type == 'sunssf' else None
        n, out = report([(REP.id, REP.length(reps), ref.fill(REP, reps, 5, which))], 'tcp', 'points implemented: %x' % mask)
        return Obs(steps=n, outcome=c)

    def label_cases():
        for seed in range(6):
            for reps in range(3):
                for sf in (-2, 0, 1, -32768):
                    yield [seed, reps, sf]

    def label_run(c):
        seed, reps, sf = c
        ws = ref.fill(LAB, reps, seed, lambda b, p, n: struct.pack('>h', sf) if p.type == 'sunssf' else None)
        n, out = report([(LAB.id, LAB.length(reps), ws)], 'tcp', 'labels and units')
        return Obs(steps=n, outcome=c)

    def chain_cases():
        for n in range(1, 4 if thorough else 3):
            for ks in itertools.product(range(len(KINDS)), repeat=n):
                for t in rig.TRANSPORTS:
                    yield [list(ks), t]

    def chain_run(c):
        ks, t = c
        n, out = report(chain_of(ks), t, 'models %r over %s' % (ks, t), base=(40000, 0, 50000)[sum(ks) % 3])
        return Obs(steps=n + 1, outcome=c)

    def many_cases():
        for reps in list(range(3, 16)) + [20, 99, 100, 101, 120]:
            yield [reps]
        for k in (1, 3, 4, 6, 8):
            for n in list(range(4, 14)) + [99, 100, 101]:
                yield [k, n]

    def many_run(c):
        if len(c) == 2:
            n, out = report(chain_of([c[0]] * c[1]), ('tcp', 'rtu')[c[1] % 2], '%d models of kind %d' % (c[1], c[0]))
            return Obs(steps=n, outcome=c)
        n, out = report([(REP.id, REP.length(c[0]), ref.fill(REP, c[0], 2, c16.sfix))], 'tcp', '%d repeating blocks' % c[0])
        return Obs(steps=n, outcome=c)

    CH = chain_of([4, 2])

    # options: where the requests go
    def option_cases():
        for unit, host, port, to in itertools.product((None, 0, 1, 7, 247, 248, 255), (None, 'localhost', '10.1.2.3'), (None, 502, 5020, 1, 65535), (None, '0.25', '7')):
            yield ['tcp', unit, host, port, to]
        for unit, name, baud, to in itertools.product((None, 1, 7, 100, 247), (None, '/dev/ttyS9', 'COM3'), (None, 9600, 19200, 115200), (None, '0.25', '7')):
            yield ['rtu', unit, name, baud, to]

    def option_run(c):
        for drop in (None, 0, 3):
            core.forked(lambda: option_one(c, drop))
        return Obs(steps=3, execs=3, outcome=c)

    def option_one(c, drop):
        t, unit, x, y, to = c
        sim, decoy = SimDevice(ref.image(40000, CH)), SimDevice(ref.image(40000, chain_of([3])))
        plan = ByIndex({('reply', drop): 'drop'}) if drop is not None else None
        rig.fresh(decoy, 'tcp', 250, plan)
        argv = ['-t', t] if (t != 'tcp' or unit) else []
        at_unit = 1 if unit is None else unit
        after = at_unit + 1 if at_unit < 255 else at_unit - 1
        if unit is not None:
            argv += ['-a', unit]
        if t == 'tcp':
            at = (x or 'localhost', y or 502)
            world.tcp = {k: {0: decoy, 1: decoy, 7: decoy, 255: decoy} for k in itertools.product(('localhost', '10.1.2.3', '127.0.0.1'), (502, 5020, 1, 65535))}
            world.tcp[at] = {0: decoy, 1: decoy, 255: decoy, after: decoy, at_unit: sim}
            argv += (['-i', x] if x else []) + (['-P', y] if y else [])
        else:
            at = x or '/dev/ttyUSB0'
            world.ports = {k: {1: decoy} for k in ('/dev/ttyUSB0', '/dev/ttyS9', 'COM3', '/dev/ttyS0')}
            world.ports[at] = {0: decoy, 1: decoy, 255: decoy, after: decoy, at_unit: sim}
            argv += (['-p', x] if x else []) + (['-b', y] if y else [])
        if to:
            argv += ['-T', to]
        code, out = run_command(argv)
        what = 'suns %s' % ' '.join(map(str, argv))
        check(not decoy.log, '%s: asked another device' % what, 'other device')
        check(sim.log, '%s: did not ask the device' % what, 'device not asked')
        if drop is None:
            eq('%s: exit status' % what, code, 0)
            check_report(out, CH, what)
            if t == 'rtu':
                eq('%s: baud rate' % what, {int(h.baudrate) for h in world.handles if h.port == at}, {y or 9600})
        elif drop == 0 and t == 'rtu':
            check(code in (0, 1), '%s: exit status %r' % (what, code), 'status')
        waited = world.clock
        if drop == 3:
            eq('%s: exit status without an answer' % what, code, 1)
            check('Error' in out, '%s: no error message: %r' % (what, out), 'no message')
            eq('%s: time waited for an answer' % what, waited, float(to or 2.0))

    # faults
    FAULTS = {'tcp': [('reply', 'drop'), ('reply', ['exc', 1]), ('reply', ['exc', 4]), ('reply', ['exc', 255]), ('reply', 'reset'), ('reply', 'eof'), ('reply', ['trunc', 3]), ('reply', ['trunc', 9]),
                      ('reply', ['trunc_eof', 8]), ('reply', ['trunc_reset', 10]), ('reply', ['pdu', [3, 1, 0]]), ('reply', ['pdu', [0x83]]), ('reply', ['raw', [1, 2, 3]]),
                      ('connect', 'refused'), ('connect', 'timeout'), ('connect', 'unreachable'), ('socket', 'fail'), ('send', 'reset'), ('send', 'timeout'), ('send', 'partial'),
                      ('recv', 'reset'), ('recv', 'timeout'), ('recv', 'eof')],
              'rtu': [('reply', 'drop'), ('reply', ['exc', 1]), ('reply', ['exc', 4]), ('reply', ['trunc', 1]), ('reply', ['trunc', 4]), ('reply', ['pdu', [3, 1, 0]]), ('reply', ['raw', [1, 2, 3]]),
                      ('open', 'fail'), ('write', 'error'), ('write', 'timeout'), ('write', 'partial'), ('read', 'error'), ('read', 'timeout'), ('flush', 'fail'), ('close', 'fail')]}

    def answer(a):
        if isinstance(a, list) and a[0] in ('pdu', 'raw'):
            return (a[0], bytes(a[1]))
        return tuple(a) if isinstance(a, list) else a

    def count_points(t, ks):
        """How many interactions of each kind a healthy run has."""
        plan = ByIndex({})
        report(chain_of(ks), t, 'healthy', plan=plan)
        return dict(plan.counts)

    FCHAINS = [[3], [4, 6], [6, 2]] if not thorough else [[3], [4, 6], [6, 2], [8, 3], [7], [3, 3, 3]]
    counts = {}

    def totals():
        if not counts:
            setup()
            for t in ('tcp', 'rtu'):
                for i, ks in enumerate(FCHAINS):
                    counts[t, i] = count_points(t, ks)
        return counts

    def single_cases():
        for (t, i), n in sorted(totals().items()):
            for kind, a in FAULTS[t]:
                for j in range(n.get(kind, 0)):
                    yield [t, i, [[kind, j, a]]]

    def pair_cases():
        for (t, i), n in sorted(totals().items()):
            if i:
                continue
            for (k1, a1), (k2, a2) in itertools.product(FAULTS[t], repeat=2):
                for j1 in range(n.get(k1, 0)):
                    for j2 in range(n.get(k2, 0) + 1):
                        if (k1, j1) != (k2, j2):
                            yield [t, i, [[k1, j1, a1], [k2, j2, a2]]]

    def fault_run(c):
        t, i, faults = c
        chain = chain_of(FCHAINS[i])
        plan = ByIndex({(k, j): answer(a) for k, j, a in faults})
        sim = SimDevice(ref.image(40000, chain))
        a = rig.fresh(sim, t, 1, plan)
        code, out = run_command(args_for(t, a))
        what = 'faults %r over %s' % (faults, t)
        if code == 0:
            check_report(out, chain, what)     # the fault did no harm (or came in a place that was tried again)
        else:
            eq('%s: exit status' % what, code, 1)
            check(any('Error' in s and len(s.split(':', 1)[-1].strip()) > 0 for s in out.splitlines()), '%s: no error message: %r' % (what, out[-300:]), 'no message')
            check(plan.used, '%s: failed without a fault: %s' % (what, out[-300:]), 'failed without a fault')
        check(not sim.applied, '%s: the command wrote to the device' % what, 'wrote')
        return Obs(steps=len(world.requests) + 1, outcome=[c, code])

    # devices that cannot be read
    def broken_cases():
        for t in rig.TRANSPORTS:
            for k in ('nothing', 'no marker', 'ends early', 'refuses points', 'half marker'):
                for base in (40000, 0, 50000):
                    yield [t, k, base]
        for k in ('no file', 'not xml', 'not a map', 'no name', 'directory', 'bad type'):
            yield ['mapped', k, 0]
        yield ['other', 'transport', 0]
        yield ['', 'transport', 0]

    def broken_run(c):
        t, k, base = c
        regs = ref.image(base, chain_of([4, 3]))
        if k == 'nothing':
            regs = {}
        elif k == 'no marker':
            regs[base] = 1
        elif k == 'half marker':
            regs[base + 1] = 0x6e54
        elif k == 'ends early':
            del regs[max(regs)], regs[max(regs) - 1]
        elif k == 'refuses points':
            del regs[base + 10]
        sim = SimDevice(regs)
        if k == 'transport':
            argv = ['-t', t]
            rig.fresh(sim)
        elif t == 'mapped' and k in ('no file', 'not xml', 'not a map', 'no name', 'directory', 'bad type'):
            rig.fresh(sim)
            d = core.scratch_dir('badmaps')
            f = os.path.join(d, 'm.xml')
            text = {'not xml': 'hello', 'not a map': '<other/>', 'bad type': '<mbmap><regs offset="0" len="1" type="what">1</regs></mbmap>'}.get(k)
            if text is not None:
                with open(f, 'w') as h:
                    h.write(text)
            argv = ['-t', 'mapped'] + ({'no name': [], 'no file': ['-m', os.path.join(d, 'nothing.xml')], 'directory': ['-m', d]}.get(k, ['-m', f]))
        else:
            argv = args_for(t, rig.fresh(sim, t))
        code, out = run_command(argv)
        what = 'suns %s (%s)' % (' '.join(map(str, argv)), k)
        eq('%s: exit status (%r)' % (what, out[-200:]), code, 1)
        check(out.strip(), '%s: no message' % what, 'no message')
        if k != 'transport':
            check('Error' in out, '%s: no error message: %r' % (what, out), 'no message')
        return Obs(steps=1, outcome=c)

    fams = [
        Family('values', value_cases, value_run, setup, what='every register pattern of every type'),
        Family('texts', shape_cases, shape_run, shape_setup, what='texts of all shapes that fit in a line'),
        Family('implemented', mask_cases, mask_run, setup, what='every combination of implemented and unimplemented points'),
        Family('labels', label_cases, label_run, setup, what='labels, units and scale factors'),
        Family('chains', chain_cases, chain_run, setup, what='chains of models on every transport'),
        Family('many', many_cases, many_run, setup, what='many repeating blocks, many instances of a model'),
        Family('options', option_cases, option_run, setup, what='where the requests go, how fast and how long the command waits'),
        Family('faults', single_cases, fault_run, setup, what='every fault at every interaction'),
        Family('broken', broken_cases, broken_run, setup, what='devices and map files that cannot be read'),
    ]
    if thorough:
        fams.append(Family('fault pairs', pair_cases, fault_run, setup, what='every pair of faults'))
    return fams
