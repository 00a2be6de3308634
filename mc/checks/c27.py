import itertools
import re
import struct
import xml.etree.ElementTree as ET

from .. import core, ref, rig, wire
from ..core import Family, Obs, Search, Violation, call, check, eq, expect_ok
from ..ref import P
from ..wire import SimDevice, world
from . import c16, c19

PROP, LEVEL = 'C27', 'model_checking'
TECHNIQUE = ('exhaustive enumeration of register contents, device chains and histories of reads, assignments and writes; at every state reached the text of every '
             'object of the real devices is compared with an independent reading of the registers, and the state with the one before printing')
RULE = 'one evaluation per register content, chain or history; distinct by the text printed'
BOUNDS = ('all register patterns of every point of a model with 20 types and of its scale factors; chains of up to 3 (quick) or 4 (thorough) of 11 model kinds at 5 stages; '
          'histories of up to 4 (quick) or 5 (thorough) of 14 operations on a device of four models; devices loaded from documents; maps and types')
ASSUMPTIONS = ['the layout of the texts of the core objects, spacing, and strings with line breaks are not judged']

ALL = c16.ALL
BASE = 40000


def setup():
    rig.definitions(list(c19.MODELS.values()) + [ALL, c16.REP, c16.FIX, c16.ONLY])


def squeeze(s):
    return ' '.join(s.split())


def lines_of(text):
    return [squeeze(l) for l in re.split(r'[\r\n]+', text) if l.strip()]


def same_text(got, want):
    """The text of a value: numbers by what they are worth, everything else literally."""
    if isinstance(want, (int, float)) and not isinstance(want, bool):
        try:
            x = int(got) if re.match(r'^-?\d+$', got) else float(got)
        except ValueError:
            return False
        return ref.close(x, want)
    return got == squeeze(str(want))


def judge_lines(what, text, want):
    """want: [header, (id, value), ..., header, ...]"""
    got = lines_of(text)
    for i, w in enumerate(want):
        if i >= len(got):
            raise Violation('%s: %r is missing from the text' % (what, w), 'missing')
        if isinstance(w, str):
            if got[i] != squeeze(w):
                raise Violation('%s: line %d is %r, expected the header %r' % (what, i, got[i], w), 'header')
        else:
            head, _, tail = got[i].partition(':')
            if head != w[0] or not same_text(tail.strip(), w[1]):
                raise Violation('%s: line %d is %r, expected %s with value %r' % (what, i, got[i], w[0], w[1]), 'point')
    if len(got) > len(want):
        raise Violation('%s: %r too much in the text' % (what, got[len(want)]), 'too much')


def section(name, m, vals, reps):
    """Expected lines of a model: (fixed part, [per block])."""
    def pts(b):
        return [(p.id, vals[b, p.id]) for p in (m.repeating if b else m.fixed) if p.type not in ('pad', 'sunssf') and vals[b, p.id] is not None]
    return ['%s (%d):' % (name, m.id)] + pts(0), [['%s[%d]:' % (m.block_name or 'repeating', b)] + pts(b) for b in range(1, reps + 1)]


def state(dev):
    return repr([[[(x, p.value_base, p.value_sf, bool(p.dirty)) for x, p in sorted(b.points.items())] +
                  [(x, p.value_base) for x, p in sorted(b.points_sf.items())] for b in m.blocks] + [m.addr, m.len, m.id] for m in dev.models_list])


def core_text(dev, what):
    """The texts of the core objects name every value point with its address and its registers' value, in order."""
    n = 0

    def points(text, blocks, what):
        nonlocal n
        pos = 0
        for b in blocks:
            for p in b.points_list:
                line = str(p)
                i = text.find(line, pos)
                if i < 0:
                    raise Violation('%s: point %s of block %d is not in the text (in order)' % (what, p.point_type.id, b.index), 'core text')
                pos = i + len(line)
                # a point names itself
                for tok in (p.point_type.id, str(int(p.addr)), str(p.value_base)) + (() if p.sf_point is None else (str(p.sf_point.value_base),)):
                    if not re.search(r'(?<![\w.-])%s(?![\w.])' % re.escape(tok), line) and tok.strip() and re.match(r'^[\w.-]+$', tok):
                        raise Violation('%s: %r is not in the text of point %s: %r' % (what, tok, p.point_type.id, line), 'core point')
                n += 1
    for m in dev.models_list:
        text = expect_ok('text of a model', str, m)
        check(isinstance(text, str) and re.search(r'\b%d\b' % m.id, text), '%s: id of model %d missing in its text' % (what, m.id), 'core model')
        points(text, m.blocks, what)
        for b in m.blocks:
            points(expect_ok('text of a block', str, b), [b], what)
        if m.model_type is not None:
            t = expect_ok('text of a model type', str, m.model_type)
            for pt in [x for bt in (m.model_type.fixed_block, m.model_type.repeating_block) if bt is not None for x in bt.points_list]:
                one = expect_ok('text of a point type', str, pt)
                check(one in t and pt.id in one and pt.type in one, '%s: point type %s missing in %r' % (what, pt.id, t), 'core types')
                for s in pt.symbols:
                    expect_ok('text of a symbol', str, s)
    text = expect_ok('text of a device', str, dev)
    pos = 0
    for m in dev.models_list:
        i = text.find(str(m), pos)
        check(i >= 0, '%s: model %d missing in the text of the device' % (what, m.id), 'core device')
        pos = i + len(str(m))
    return n


def show(d, dev, sims, judge, what):
    """Print everything twice; nothing may change, nothing may be sent."""
    before = state(dev), [dict(s.regs) for s in sims], len(world.requests), world.calls
    n = judge()
    n += core_text(dev, what)
    if (state(dev), [dict(s.regs) for s in sims], len(world.requests), world.calls) != before:
        raise Violation('%s: printing changes something or talks to the device' % what, 'printing has an effect')
    if d is not None:
        check(str(d) == str(d), '%s: printed twice, two texts' % what, 'not stable')
    return n


def judge_script(d, word, vals, what):
    """vals: per model {(block, id): value}"""
    rows = c19.walk(d, word)
    want = {}
    n = 0
    for i, (k, w, m) in enumerate(rows):
        kind = c19.KINDS[k]
        text = expect_ok('text of a model', str, w)
        if not isinstance(kind, tuple):
            # no values: the definition is missing or does not fit the length
            judge_lines('%s: model %d' % (what, m.id), text, ['%s (%d):' % (w.name, m.id)])
            want[i] = ['%s (%d):' % (w.name, m.id)]
            continue
        md, reps = kind
        head, blocks = section(w.name, md, vals[i], reps)
        judge_lines('%s: model %d (instance %d)' % (what, m.id, m.index), text, head + [x for b in blocks for x in b])
        want[i] = head + [x for b in blocks for x in b]
        for b, o in c19.block_objects(k, w):
            if b:
                judge_lines('%s: block %d of model %d' % (what, b, m.id), expect_ok('text of a block', str, o), blocks[b - 1])
        n += len(want[i])
    # the device: every model, instances of one model in order
    text = expect_ok('text of the device', str, d)
    names = list(dict.fromkeys(c19.name_of(k) for k in word))
    order = [i for nm in names for i, k in enumerate(word) if c19.name_of(k) == nm]
    try:
        judge_lines('%s: device' % what, text, [x for i in order for x in want[i]])
    except Violation:
        judge_lines('%s: device' % what, text, [x for i in sorted(want) for x in want[i]])      # in device order is as good
    return n + len(word)


def expected(word, regs, only=None):
    addr, out = BASE + 2, []
    for k, (mid, ln, ws) in zip(word, c19.chain(word)):
        kind = c19.KINDS[k]
        out.append({} if not isinstance(kind, tuple) else {key: v[2] for key, v in kind[0].expect(lambda a: regs[a], addr + 2, kind[1]).items()})
        addr += 2 + ln
    return out


def none(vals):
    return [dict.fromkeys(v) for v in vals]


def families(tier):
    thorough = tier == 'thorough'

    # every register pattern
    def point_cases():
        for i, p in enumerate(ALL.fixed):
            if p.type == 'pad':
                continue
            for j in range(len(c16.patterns(p))):
                for t in ('tcp', 'rtu', 'mapped'):
                    yield [i, j, t]
        yield [None, None, 'tcp']

    def point_run(c):
        i, j, t = c

        def which(b, p, n):
            if i is None:
                return ref.unimpl(p.type, p.len)
            if p is ALL.fixed[i]:
                return c16.patterns(p)[j]
            return struct.pack('>h', -1) if p.type == 'sunssf' else None
        regs = ref.image(BASE, [(ALL.id, ALL.length(), ref.fill(ALL, 0, 3, which))])
        sim = SimDevice(regs)
        d = rig.script_device(sim, t)
        expect_ok('read', d.read)
        vals = {k: v[2] for k, v in ALL.expect(lambda a: regs[a], BASE + 4).items()}

        def judge():
            head, _ = section('all', ALL, vals, 0)
            judge_lines('model of all types', str(d['all']), head)
            judge_lines('device', str(d), head)
            return len(head)
        n = show(d, d.device, [sim], judge, 'pattern %d of %s' % (j or 0, ALL.fixed[i or 0].id))
        d.close()
        return Obs(steps=n, outcome=c)

    # chains, at five stages
    def chain_cases():
        for n in range(0, 5 if thorough else 4):
            for w in itertools.product([k for k in c19.KINDS_OF], repeat=n):
                yield [''.join(w), rig.TRANSPORTS[sum(map(ord, w)) % 3]]

    def size_cases():
        for k in 'roq':
            for n in c19.MANY:
                if n <= 40 or k == 'o' and n < 130:
                    yield [[k + str(n)], rig.TRANSPORTS[n % 3]]
        for k in 'anxu':
            for n in (4, 9, 10, 11, 12, 20, 101):
                yield [[k] * n, rig.TRANSPORTS[n % 3]]

    def chain_run(c):
        word, t = c
        regs = ref.image(BASE, c19.chain(word))
        sim = SimDevice(regs)
        d = rig.script_device(sim, t)
        dev = d.device
        vals = expected(word, regs)
        n = show(d, dev, [sim], lambda: judge_script(d, word, none(vals), 'before reading'), 'before reading')
        good = [i for i, k in enumerate(word) if isinstance(c19.KINDS[k], tuple)]
        for i in good[:1]:
            m = dev.models_list[i]
            expect_ok('read of a model', c19.walk(d, word)[i][1].read)
            some = none(vals)
            some[i] = vals[i]
            n += show(d, dev, [sim], lambda: judge_script(d, word, some, 'one model read'), 'one model read')
        expect_ok('read', d.read)
        n += show(d, dev, [sim], lambda: judge_script(d, word, vals, 'after reading'), 'after reading')
        # assigned, not yet written
        now = [dict(v) for v in vals]
        for i, (k, w, m) in enumerate(c19.walk(d, word)):
            if not isinstance(c19.KINDS[k], tuple):
                continue
            md, reps = c19.KINDS[k]
            for b, o in c19.block_objects(k, w):
                for j, p in enumerate(p for p in (md.repeating if b else md.fixed) if p.type not in ('pad', 'sunssf')):
                    if (i + b + j) % 2:
                        sf = m.blocks[b].points[p.id].value_sf
                        raw = 0 if p.type not in ('string', 'float32') and j % 3 == 0 else c19.new_raw(p, i + b + j)
                        v = ref.scaled(raw, sf)
                        setattr(o, p.id, v)
                        now[i][b, p.id] = v
        n += show(d, dev, [sim], lambda: judge_script(d, word, now, 'after assigning'), 'after assigning')
        # other registers, read anew
        if t != 'mapped':
            addr = BASE + 2
            for i, (k, (mid, ln, ws)) in enumerate(zip(word, c19.chain(word))):
                if isinstance(c19.KINDS[k], tuple):
                    md, reps = c19.KINDS[k]
                    for j, x in enumerate(ref.fill(md, reps, 900 + i, lambda b, p, n: ref.unimpl(p.type, p.len) if (n + i) % 3 == 0 else c19.one(b, p, n))):
                        sim.regs[addr + 2 + j] = x
                addr += 2 + ln
            expect_ok('read again', d.read)
            last = expected(word, sim.regs)
            n += show(d, dev, [sim], lambda: judge_script(d, word, last, 'after reading again'), 'after reading again')
        d.close()
        n += show(d, dev, [sim], lambda: len(str(d)), 'after closing')
        return Obs(steps=n, outcome=c)

    # histories
    WORD = 'arrq'
    TARGETS = [(0, 0, 'X'), (1, 0, 'A'), (1, 1, 'A'), (2, 2, 'A'), (3, 1, 'V')]
    OPS = [['set', list(x)] for x in TARGETS] + [['read', i] for i in range(4)] + [['write', 1], ['readall'], ['dev', 0], ['dev', 1]]

    def hist_run(hist):
        sim = SimDevice(ref.image(BASE, c19.chain(WORD)))
        d = rig.script_device(sim, 'tcp')
        vals = none(expected(WORD, sim.regs))
        d.read()
        vals = expected(WORD, sim.regs)
        rows = c19.walk(d, WORD)
        steps = 0
        for n, op in enumerate(hist):
            if op[0] == 'set':
                i, b, pid = op[1]
                k, w, m = rows[i]
                o = w if b == 0 else w.repeating[b]
                sf = m.blocks[b].points[pid].value_sf
                v = ref.scaled(7 + n, sf)
                setattr(o, pid, v)
                vals[i][b, pid] = v
            elif op[0] == 'read':
                expect_ok('read', rows[op[1]][1].read)
                vals[op[1]] = expected(WORD, sim.regs)[op[1]]
            elif op[0] == 'write':
                expect_ok('write', rows[op[1]][1].write)
            elif op[0] == 'readall':
                expect_ok('read', d.read)
                vals = expected(WORD, sim.regs)
            else:
                addr = BASE + 2
                for i, k in enumerate(WORD):
                    md, reps = c19.KINDS[k]
                    for j, x in enumerate(ref.fill(md, reps, 1000 * (op[1] + 1) + i, c19.one)):
                        sim.regs[addr + 2 + j] = x
                    addr += 2 + md.length(reps)
            steps += show(d, d.device, [sim], lambda: judge_script(d, WORD, vals, 'after %r' % (hist[:n + 1],)), 'history') and 1
        st = (repr(vals), state(d.device), sorted(sim.regs.items()))
        d.close()
        return st, max(1, steps), OPS

    # devices that were never connected to anything
    def doc_cases():
        for word in itertools.chain.from_iterable(itertools.product('arsqoc', repeat=n) for n in (0, 1, 2, 3)):
            yield [''.join(word)]

    def doc_run(c):
        word = c[0]
        regs = ref.image(BASE, c19.chain(word))
        src = rig.client_device(SimDevice(regs), 'tcp')
        expect_ok('scan', src.scan)
        expect_ok('read', src.read_points)
        root = ET.Element('sunSpecPics', v='1')
        expect_ok('write a document', src.to_pics, root, single_repeating=False)
        dev = rig.device.Device()
        n = show(None, dev, [], lambda: 0, 'empty device')
        expect_ok('load', dev.from_pics, root[0])
        n += show(None, dev, [], lambda: 0, 'loaded device')
        eq('models', len(dev.models_list), len(word))
        return Obs(steps=n, outcome=c)

    def other_cases():
        for n in range(0, 9):
            yield ['map', n]
            yield ['paths', n]
        for mid in list(c19.MODELS) + [ALL.id]:
            yield ['type', mid]

    def other_run(c):
        kind, n = c
        if kind == 'map':
            mm = rig.mbmap
            m = mm.ModbusMap(slave_id=None if n == 0 else n, base_addr=BASE)
            for i in range(n):
                m.regs.append(mm.ModbusMapRegs(10 * i, 2, 'abcd' if i % 2 else b'abcd'))
            t = expect_ok('text of a map', str, m)
            for i in range(n):
                check(str(10 * i) in t and str(m.regs[i]) in t, 'entry %d missing in %r' % (i, t), 'map')
            check(str(BASE) in t, 'base address missing in %r' % t, 'map')
        elif kind == 'paths':
            paths = ['/a/b%d' % i for i in range(n)]
            t = expect_ok('text of a path list', str, rig.util.PathList(paths))
            check(all(p in t for p in paths), 'path missing in %r' % t, 'paths')
        else:
            t = expect_ok('definition', rig.device.model_type_get, n)
            s = expect_ok('text', str, t)
            md = ALL if n == ALL.id else c19.MODELS[n]
            pos = 0
            for p in list(md.fixed) + list(md.repeating or []):
                if p.type == 'sunssf' or p.type == 'pad':
                    continue
                i = s.find(p.id, pos)
                check(i >= 0, 'point %s missing in %r' % (p.id, s), 'type')
                pos = i
        return Obs(steps=1, outcome=c)

    return [
        Family('patterns', point_cases, point_run, setup, what='every register pattern of every type'),
        Family('chains', chain_cases, chain_run, setup, what='chains of models before and after reading, assigning and reading again'),
        Family('sizes', size_cases, chain_run, setup, what='models of up to 129 repeating blocks, and up to 101 instances of a model'),
        Search('histories', hist_run, 5 if thorough else 4, setup=setup, what='histories of reads, writes, assignments and device changes'),
        Family('documents', doc_cases, doc_run, setup, what='devices loaded from documents'),
        Family('others', other_cases, other_run, setup, what='maps, path lists and definitions'),
    ]
