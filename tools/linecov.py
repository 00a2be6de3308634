#!/usr/bin/env python3
"""Which lines of the library do the checks execute? Not a check. usage: linecov.py OUTDIR C01 C02 ... (quick tier), then linecov.py OUTDIR"""
import ast, glob, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
FILES = [os.path.join(REPO, f) for f in ('sunspec/core/client.py', 'sunspec/core/device.py', 'sunspec/core/modbus/client.py', 'sunspec/core/modbus/mbmap.py',
         'sunspec/core/data.py', 'sunspec/core/pics.py', 'sunspec/core/smdx.py', 'sunspec/core/suns.py', 'sunspec/core/util.py', 'scripts/suns.py')]
out = os.path.abspath(sys.argv[1])
os.makedirs(out, exist_ok=True)
sys.path.insert(0, HERE)


def measure(prop):
    seen = set()
    mon = sys.monitoring
    mon.use_tool_id(4, 'linecov')

    def line(code, n):
        if code.co_filename.startswith(REPO):
            seen.add((code.co_filename, n))
        return mon.DISABLE
    mon.register_callback(4, mon.events.LINE, line)
    mon.set_events(4, mon.events.LINE)
    sys.argv = ['mc', prop]
    from mc import core

    def dump():
        with open(os.path.join(out, '%s-%d.json' % (prop, os.getpid())), 'w') as f:
            json.dump(sorted(seen), f)
    old = core.scratch_cleanup

    def cleanup():
        dump()
        old()
    core.scratch_cleanup = cleanup
    import runpy
    try:
        runpy.run_module('mc', run_name='__main__')
    finally:
        dump()


def code_lines(f):
    lines = set()

    def walk(c):
        lines.update(l for _, _, l in c.co_lines() if l)
        for x in c.co_consts:
            if hasattr(x, 'co_lines'):
                walk(x)
    walk(compile(open(f).read(), f, 'exec'))
    return lines


if len(sys.argv) > 2:
    for p in sys.argv[2:]:
        pid = os.fork()
        if pid == 0:
            measure(p)
            os._exit(0)
        os.waitpid(pid, 0)
else:
    hit = set()
    for g in glob.glob(out + '/*.json'):
        hit.update((os.path.realpath(a), b) for a, b in json.load(open(g)))
    for f in FILES:
        src = open(f).read().splitlines()
        miss = sorted(l for l in code_lines(f) if (os.path.realpath(f), l) not in hit)
        print('%s: %d of %d lines not executed' % (f, len(miss), len(code_lines(f))))
        for l in miss:
            print('   %5d %s' % (l, src[l - 1]))
