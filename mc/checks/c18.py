import contextlib
import itertools
import json
import os
import pathlib
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET
import zipfile

from .. import core, ref, rig, wire
from ..core import Family, Obs, Search, Violation, call, check, eq, expect_exc, expect_ok
from ..ref import P

PROP, LEVEL = 'C18', 'model_checking'
TECHNIQUE = ('exhaustive enumeration of path lists over all kinds of entries, of histories of changing lists, files and scopes, and of all '
             'combinations of places a document can be in, through the real lookups on a scratch file system')
RULE = 'one evaluation per path list, history or combination of places; distinct by the lookup results'
BOUNDS = ('path lists of up to 3 (quick) or 4 (thorough) of 29 kinds of entries, 3 file names; 60 odd names in 6 kinds of place; pairs of 27 entries with symbolic links x 6 names; histories of up to 6 (quick) or 7 (thorough) of 10 operations; '
          'scope histories of up to 6 (quick) or 8 (thorough) operations nested up to 4 deep; all combinations of the places of PICS documents and model definitions; zip files of 4 methods, 3 comments, 9 pairs of extra fields, members of up to 200000 bytes, every sequence of up to 4 additions; lists of up to 1001 entries')
ASSUMPTIONS = ['damaged zip files, directories named .zip and files that are directories are not judged']

device, util = rig.device, rig.util
# (entry, what it contains: {file name: content})
FILES = ('doc.xml', 'smdx_64801.xml', 'sub/doc.xml')


def base():
    """The scratch tree; the same in every process."""
    root = core.scratch_dir('c18')
    if os.path.exists(os.path.join(root, 'ready')):
        return root
    for d in ('full', 'full/sub', 'part', 'empty', 'a/b/c', 'spaced dir', 'dot.d', 'zips', 'full.zipper'):
        os.makedirs(os.path.join(root, d), exist_ok=True)
    for d, names in (('full', FILES), ('part', ('smdx_64801.xml',)), ('a/b/c', ('doc.xml',)), ('a', ('smdx_64801.xml',)), ('spaced dir', ('doc.xml',)),
                     ('dot.d', ('doc.xml', 'smdx_64801.xml')), ('full.zipper', ('doc.xml',))):
        for n in names:
            write(os.path.join(root, d, n), content(d, n))
    for z, items in (('full.zip', ('doc.xml', 'smdx_64801.xml', 'sub/doc.xml', 'in/doc.xml', 'in/deep/doc.xml', 'in/smdx_64801.xml')),
                     ('part.zip', ('other.xml', 'in/other.xml')), ('zips/nested.zip', ('in/doc.xml', 'smdx_64801.xml')), ('none.zip', ()),
                     ('with dots.v1.zip', ('doc.xml', 'in/deep/smdx_64801.xml'))):
        with zipfile.ZipFile(os.path.join(root, z), 'w') as f:
            for n in items:
                f.writestr(n, content(z, n))
    write(os.path.join(root, 'ready'), b'')
    return root


def content(where, name):
    if name == 'empty':
        return b''
    return ('<%s in %s \xe9>' % (name, where)).encode('latin-1')


def write(p, data):
    with open(p, 'wb') as f:
        f.write(data)


ENTRIES = ['{r}/full', '{r}/full/', '{r}/part', '{r}/empty', '{r}/missing', '{r}/a/b/c', '{r}//full', '{r}/full/../part', '{r}/spaced dir', '{r}/dot.d',
           '{r}/full.zipper', '{r}/full.zip', '{r}/full.zip/', '{r}/full.zip/in', '{r}/full.zip/in/deep', '{r}/full.zip/in/', '{r}/part.zip',
           '{r}/part.zip/in', '{r}/zips/nested.zip/in', '{r}/none.zip', '{r}/missing.zip', '{r}/missing.zip/in', '{r}/with dots.v1.zip', 'full', './a/b/c',
           'full.zip', 'full.zip/in', 'missing/x', '.']


def contains(root, entry, name):
    """Content of the file in the entry, or None, by the description of path entries."""
    p = entry.format(r=root)
    full = os.path.normpath(os.path.join(root, p, name))
    parts = full[len(root) + 1:].split('/')
    for i, part in enumerate(parts):
        if part.endswith('.zip'):
            z = os.path.join(root, *parts[:i + 1])
            if not os.path.exists(z):
                return None
            with zipfile.ZipFile(z) as f:
                inner = '/'.join(parts[i + 1:])
                return f.read(inner) if inner in f.namelist() else None
    if os.path.isfile(full):
        with open(full, 'rb') as f:
            return f.read()
    return None


def as_bytes(x):
    return x.encode('latin-1') if isinstance(x, str) else x


def lookup(what, pl, root, entries, name, table=None):
    want = None
    for e in entries:
        want = table(e, name) if table else contains(root, e, name)
        if want is not None:
            break
    k, v = call(pl.read, name)
    if want is None:
        if k == 'ok' or not isinstance(v, NameError):
            raise Violation('%s: %s not in %s: got %r' % (what, name, entries, v), 'absent file')
    else:
        if k != 'ok':
            raise Violation('%s: %s in %s: raised %s: %s' % (what, name, entries, type(v).__name__, v), 'file not found')
        if as_bytes(v) != want:
            raise Violation('%s: %s in %s: got %r, expected %r' % (what, name, entries, v, want), 'wrong content')
    return want


MODEL = 64801


def smdx(tag, mid=MODEL):
    return ref.Model(mid, [P('A', 'int16')], name=tag).xml()


def pics(tag):
    """A document whose point value tells where it is from."""
    return '<sunSpecPics v="1"><device addr="40000"><model id="64802"><block><point id="A">%d</point></block></model></device></sunSpecPics>' % tag


PLACES = ('none', 'lacks', 'has', 'zip', 'missing')


def make_list(root, kind, tag, files):
    """A path list of the given kind; files: {name: text}"""
    if kind == 'none':
        return None
    d = os.path.join(root, 'l%s' % tag)
    os.makedirs(d, exist_ok=True)
    if kind == 'missing':
        return util.PathList([os.path.join(d, 'nowhere'), os.path.join(d, 'no.zip', 'x')])
    if kind == 'lacks':
        write(os.path.join(d, 'something.xml'), b'x')
        return util.PathList([d])
    if kind == 'has':
        for n, t in files.items():
            write(os.path.join(d, n), t.encode())
        return util.PathList([os.path.join(d, 'nowhere'), d])
    z = os.path.join(d, 'docs.zip')
    with zipfile.ZipFile(z, 'w') as f:
        for n, t in files.items():
            f.writestr('in/' + n, t)
    return util.PathList([os.path.join(d, 'no.zip'), os.path.join(z, 'in')])


def families(tier):
    thorough = tier == 'thorough'

    def list_setup():
        os.chdir(base())

    def list_cases():
        for n in range(0, 5 if thorough else 4):
            for es in itertools.product(range(len(ENTRIES)), repeat=n):
                yield list(es)

    table = {}

    def list_run(c):
        root = base()

        def known(e, name):
            if (e, name) not in table:
                table[e, name] = contains(root, e, name)
            return table[e, name]
        entries = [ENTRIES[i] for i in c]
        paths = [e.format(r=root) for e in entries]
        out = []
        pls = [('constructed', util.PathList(list(paths)))]
        if len(c) < 3:
            pl = util.PathList()
            for p in paths:
                pl.add(p)
            pls.append(('added', pl))
        for what, pl in pls:
            for name in FILES:
                w = lookup(what + ' path list', pl, root, entries, name, known)
                out.append(w)
            if len(c) < 3:
                lookup(what + ' path list again', pl, root, entries, FILES[0], known)
                lookup(what + ' path list', pl, root, entries, 'unknown.xml', known)
        return Obs(steps=len(out), outcomes=[[str(x) for x in out]])

    # names that mean something elsewhere
    NAMES = ['~', '~root', '$HOME', '${HOME}', '%41', '%s', '%(x)s', '{x}', '{0}', '#', 'a;b', 'a:b', 'a,b', '*', '?', '[x]', '[!x]', '!x', '\xfc', '\u65e5\u672c', '  ', ' lead',
             'trail ', 'trail.', '.hidden', '..dots', '...', 'x.zip.d', 'x.ZIP', 'x.Zip', 'UPPER', 'a\\b', '\\', '-dash', '--', 'a=b', 'a&b', "'q'", '"q"', '`q`', '$(q)', 'n\nl', 't\tb', '<x>',
             '|', 'file:', 'C:', 'http:', '@x', '+', '^', '0', '\xa0', 'e\u0301', '\xe9', 'x' * 120, 'zip', 'x.zipx', 'smdx', 'None']
    SPOTS = ['abs', 'rel', 'dot', 'zip dir', 'zip name', 'file']

    def name_cases():
        for i in range(len(NAMES)):
            for spot in SPOTS:
                for at in range(3):
                    yield [i, spot, at]

    def name_run(c):
        i, spot, at = c
        name = NAMES[i]
        root = core.scratch_dir()
        os.chdir(root)
        tag = ('%d %s' % (i, spot)).encode()
        other = os.path.join(root, 'other')
        os.mkdir(other)
        write(os.path.join(other, 'else.xml'), b'else')
        f = 'doc.xml'
        if spot in ('abs', 'rel', 'dot'):
            os.mkdir(name)
            write(os.path.join(name, f), tag)
            entry = {'abs': os.path.join(root, name), 'rel': name, 'dot': os.path.join('.', name)}[spot]
        elif spot == 'zip dir':
            with zipfile.ZipFile('z.zip', 'w') as z:
                z.writestr(zipfile.ZipInfo(name + '/' + f), tag)
                z.writestr('doc.xml', 'top')
            entry = os.path.join(root, 'z.zip', name)
        elif spot == 'zip name':
            with zipfile.ZipFile(name + '.zip', 'w') as z:
                z.writestr('in/' + f, tag)
            entry = name + '.zip/in'
        else:
            f = name
            os.mkdir('d')
            write(os.path.join('d', f), tag)
            entry = 'd'
        entries = [entry]
        if at:
            entries.insert(at - 1, other)
        try:
            pl = util.PathList(list(entries))
            for k in range(2):
                k, v = call(pl.read, f)
                check(k == 'ok', '%r in %r: %r' % (f, entries, v), 'file not found')
                eq('%r in %r' % (f, entries), as_bytes(v), tag)
                k, v = call(pl.read, 'else.xml')
                check((k, as_bytes(v) if k == 'ok' else None) == ('ok', b'else') if at else isinstance(v, NameError), 'else.xml in %r: %r' % (entries, v), 'other entries')
        finally:
            os.chdir('/')
            shutil.rmtree(root)
        return Obs(steps=4, outcome=c)

    # symbolic links, and ways out of them
    #   real/deep/doc.xml, real/doc.xml, doc.xml; link -> real/deep, up -> .., flink -> real/doc.xml, zlink.zip -> real/z.zip, gone -> nothing, loop -> loop
    LENTRIES = ['link', 'link/', 'link/..', 'link/../', 'link/.', 'link/../deep', 'link/../../real', 'real/up', 'real/up/real', 'link/up', 'files', 'gone', 'loop', 'gone/..',
                'real/../real', 'real/deep/..', 'real/deep/../..', 'zlink.zip', 'zlink.zip/in', 'link/../z.zip', 'link/../z.zip/in', 'real/deep/../z.zip/in', 'up2/real', 'missing/..',
                'missing/../real', './link/..', 'empty']
    LNAMES = ['doc.xml', 'flink.xml', 'gone.xml', 'deep/doc.xml', 'link/../doc.xml', '../doc.xml']

    def link_root():
        root = core.scratch_dir('links/in')
        if os.path.exists(os.path.join(root, 'ready')):
            return root
        for d in ('real/deep', 'files', 'empty'):
            os.makedirs(os.path.join(root, d))
        for d in ('real/deep', 'real', '.', '..'):
            write(os.path.join(root, d, 'doc.xml'), ('doc of %s' % d).encode())
        write(os.path.join(root, 'real/else.xml'), b'else')
        with zipfile.ZipFile(os.path.join(root, 'real/z.zip'), 'w') as z:
            z.writestr('doc.xml', 'zipped')
            z.writestr('in/doc.xml', 'zipped inside')
        for n, to in (('link', 'real/deep'), ('real/up', '..'), ('real/deep/up', '..'), ('files/flink.xml', '../real/else.xml'), ('files/doc.xml', '../real/deep/doc.xml'),
                      ('files/gone.xml', 'nothing.xml'), ('gone', 'nothing'), ('loop', 'loop'), ('zlink.zip', 'real/z.zip'), ('up2', os.path.join('..', os.path.basename(root))),
                      ('real/link', 'deep')):
            os.symlink(to, os.path.join(root, n))
        write(os.path.join(root, 'ready'), b'')
        return root

    def link_setup():
        link_root()

    def links(entry, name):
        p = os.path.join(entry, name)
        parts = p.split('/')
        for i, part in enumerate(parts):
            if part.endswith('.zip'):
                z = '/'.join(parts[:i + 1])
                if not os.path.exists(z):
                    return None
                with zipfile.ZipFile(z) as f:
                    inner = '/'.join(parts[i + 1:])
                    return f.read(inner) if inner in f.namelist() else None
        try:
            with open(p, 'rb') as f:
                return f.read()
        except OSError:
            return None

    def link_cases():
        for n in (1, 2):
            for es in itertools.product(range(len(LENTRIES)), repeat=n):
                for how in ('abs', 'rel'):
                    yield [list(es), how]

    def link_run(c):
        root = link_root()
        os.chdir(root)
        try:
            entries = [LENTRIES[i] if c[1] == 'rel' else os.path.join(root, LENTRIES[i]) for i in c[0]]
            pl = util.PathList(list(entries))
            out = []
            for name in LNAMES:
                if '..' in name and any('.zip' in e for e in entries):
                    continue
                out.append(str(lookup('path list', pl, root, entries, name, links)))
        finally:
            os.chdir('/')
        return Obs(steps=len(out), outcome=[c, out])

    # histories: a path list used while files come and go
    HOPS = ['add A', 'add Z', 'add B', 'put A', 'put B', 'put Z', 'del A', 'del B', 'del Z', 'empty A']

    def hist_setup():
        base()

    def hist_run(hist):
        root = core.scratch_dir()
        d = {x: os.path.join(root, x) for x in 'AB'}
        for x in d.values():
            os.mkdir(x)
        z = os.path.join(root, 'Z.zip')
        has, order, steps = {}, [], 0
        pl = util.PathList()

        def zip_now(n):
            if n is None:
                if os.path.exists(z):
                    os.unlink(z)
                return
            with zipfile.ZipFile(z, 'w') as f:
                f.writestr('x.xml', 'other')
                f.writestr('in/doc.xml', n)
        for k, op in enumerate(hist):
            a, x = op.split()
            if a == 'add':
                pl.add(d[x] if x in d else z + '/in')
                order.append(x)
            elif a in ('put', 'empty'):
                has[x] = b'' if a == 'empty' else b'%s%d' % (x.encode(), k)
                if x == 'Z':
                    zip_now(has[x])
                else:
                    write(os.path.join(d[x], 'doc.xml'), has[x])
            else:
                if x not in has:
                    shutil.rmtree(root)
                    return 'illegal', steps, []
                del has[x]
                if x == 'Z':
                    zip_now(None)
                else:
                    os.unlink(os.path.join(d[x], 'doc.xml'))
            lookup('after %s' % hist[:k + 1], pl, root, order, 'doc.xml', lambda e, n: has.get(e))
            steps += 1
        shutil.rmtree(root)
        return (order, sorted((x, bool(v)) for x, v in has.items())), steps, list(HOPS)

    # scopes
    SOPS = ['enter0', 'enter1', 'enter2', 'exit', 'raise', 'set', 'unset', 'add']

    def scope_setup():
        base()
        core.scratch_dir('s')
        for i in range(12):
            d = core.scratch_dir('s/%d' % i)
            write(os.path.join(d, 'smdx_%05d.xml' % MODEL), smdx('m%d' % i).encode())
        write(os.path.join(core.scratch_dir('s/cwd'), 'smdx_%05d.xml' % MODEL), smdx('cwd').encode())

    def found():
        # definitions looked up before under another path list must not stand in for the one in use now
        k, v = call(device.model_type_get, MODEL)
        if k != 'ok':
            raise Violation('definition not found: %s: %s' % (type(v).__name__, v), 'not found')
        return v.name

    def scope_run(hist):
        os.chdir(core.scratch_dir('s/cwd'))
        rig.use_dir(core.scratch_dir('s'))          # forgets definitions of the histories before
        device.file_pathlist = None
        dirs = lambda i: core.scratch_dir('s/%d' % i)
        cur, stack, n, steps = None, [], 0, 0
        orig_objs = []
        try:
            for op in hist:
                if op.startswith('enter'):
                    if len(stack) == 4:
                        return 'illegal', steps, []
                    paths = []
                    for _ in range(int(op[5])):
                        p = dirs(n) if n % 2 else pathlib.Path(dirs(n))
                        paths.append((p, n))
                        n += 1
                    cm = device.fresh_file_pathlist(*[p for p, _ in paths])
                    before = device.file_pathlist
                    pl = expect_ok('entering a scope', cm.__enter__)
                    check(pl is device.file_pathlist, 'the scope does not give the path list in use', 'scope value')
                    stack.append((cm, cur, before))
                    cur = [i for _, i in paths]
                elif op in ('exit', 'raise'):
                    if not stack:
                        return 'illegal', steps, []
                    cm, cur, before = stack.pop()
                    if op == 'exit':
                        expect_ok('leaving a scope', cm.__exit__, None, None, None)
                    else:
                        e = ValueError('x')
                        k, v = call(cm.__exit__, ValueError, e, None)
                        check((k == 'ok' and not v) or v is e, 'an exception in a scope does not come out: %r' % (v,), 'scope exception')
                    check(device.file_pathlist is before, 'the path list of before the scope is not back', 'scope undone')
                elif op == 'set':
                    device.file_pathlist = util.PathList([dirs(n)])
                    cur = [n]
                    n += 1
                elif op == 'unset':
                    device.file_pathlist = None
                    cur = None
                else:
                    if cur is None:
                        return 'illegal', steps, []
                    device.file_pathlist.add(dirs(n))
                    if n % 12 not in cur:
                        cur.append(n)
                    n += 1
                if n > 12:
                    return 'illegal', steps, []
                eq('definition found after %s' % hist, found(), 'm%d' % cur[0] if cur else 'cwd')
                steps += 1
            return ([c for _, c, _ in stack], cur, n), steps, list(SOPS)
        finally:
            device.file_pathlist = None

    # one device after the other, each loaded under a path list of its own
    def after_cases():
        for n in (2, 3):
            for dirs in itertools.product(range(3), repeat=n):
                for how in itertools.product(('load', 'type', 'scan', 'pics'), repeat=n):
                    for scope in ('set', 'with', 'cwd'):
                        yield [list(dirs), list(how), scope]

    def after_setup():
        scope_setup()
        for i in range(3):
            # the same model, described differently
            m = ref.Model(64803, [P('A', 'int16'), P('B', 'int16' if i else 'uint16')] + [P('X%d' % i, 'uint16')], name='k%d' % i)
            m.write(core.scratch_dir('s/%d' % i))

    def after_run(c):
        dirs, hows, scope = c
        rig.use_dir(core.scratch_dir('s'))
        device.file_pathlist = None
        os.chdir(core.scratch_dir('s/cwd'))
        try:
            for i, how in zip(dirs, hows):
                d = core.scratch_dir('s/%d' % i)
                cm = contextlib.nullcontext()
                if scope == 'set':
                    device.file_pathlist = util.PathList([d])
                elif scope == 'with':
                    cm = device.fresh_file_pathlist(d)
                else:
                    os.chdir(d)
                with cm:
                    if how == 'type':
                        v = expect_ok('definition', device.model_type_get, 64803)
                        eq('definition', v.name, 'k%d' % i)
                        continue
                    if how == 'load':
                        m = device.Model(device.Device(), 64803, 40002, 3)
                        expect_ok('load', m.load)
                    elif how == 'scan':
                        dev = rig.client_device(wire.SimDevice(ref.image(40000, [(64803, 3, [0xFFFE, 0xFFFE, 7])])), 'tcp')
                        expect_ok('scan', dev.scan)
                        expect_ok('read', dev.read_points)
                        m = dev.models_list[0]
                        eq('value by the definition in use', m.points['B'].value, -2 if i else 0xFFFE)
                    else:
                        dev = device.Device()
                        expect_ok('load of a document', dev.from_pics, ET.fromstring(
                            '<device addr="40000"><model id="64803"><block><point id="B">5</point></block></model></device>'))
                        m = dev.models_list[0]
                    eq('points of %s under path list %d, after %s' % (how, i, dirs), sorted(m.points), ['A', 'B', 'X%d' % i])
        finally:
            device.file_pathlist = None
        return Obs(steps=len(hows), outcome=c)

    # where documents come from
    def pics_cases():
        for given, module, cwd in itertools.product(PLACES, PLACES, (False, True)):
            for name in ('doc.xml', 'absolute'):
                for mname in ('has',):
                    yield [given, module, cwd, name]

    def pics_run(c):
        given, module, cwd, name = c
        root = core.scratch_dir()
        model = ref.Model(64802, [P('A', 'int16')], name='m').xml()
        here = os.path.join(root, 'cwd')
        os.mkdir(here)
        os.chdir(here)
        want = None
        if name == 'absolute':
            fname = os.path.join(root, 'abs', 'doc.xml')
            os.mkdir(os.path.dirname(fname))
            if cwd:
                write(fname, pics(3).encode())
                want = 3
            gl = make_list(root, given if given not in ('has', 'zip') else 'lacks', 'g', {})
            ml = make_list(root, module if module not in ('has', 'zip') else 'lacks', 'm', {})
        else:
            fname = 'doc.xml'
            if cwd:
                write(fname, pics(3).encode())
                want = 3
            gl = make_list(root, given, 'g', {fname: pics(1)})
            ml = make_list(root, module, 'm', {fname: pics(2)})
            if module in ('has', 'zip'):
                want = 2
            if given in ('has', 'zip'):
                want = 1
        write('smdx_64802.xml', model.encode())
        device.file_pathlist = ml
        try:
            d = device.Device()
            k, v = call(d.from_pics, None, fname, gl)
            if want is None:
                check(k == 'exc' and isinstance(v, rig.SErr), 'document found nowhere: %r' % (v,), 'missing document')
            else:
                if k != 'ok':
                    raise Violation('document not found: %s: %s' % (type(v).__name__, v), 'document not found')
                eq('document loaded', d.models_list[0].blocks[0].points['A'].value, want)
            check(device.file_pathlist is ml, 'the module path list changed', 'module path list')
        finally:
            device.file_pathlist = None
            os.chdir('/')
            shutil.rmtree(root)
        return Obs(steps=1, outcome=[c, want])

    def def_cases():
        yield ['all']

    def def_run(c):
        """In a copy of the package with packaged definitions, in a process of its own."""
        root = core.scratch_dir()
        pkg = os.path.join(root, 'pkg')
        shutil.copytree(os.path.join(core.REPO, 'sunspec'), os.path.join(pkg, 'sunspec'), ignore=shutil.ignore_patterns('test', '__pycache__'))
        smdx_dir = os.path.join(pkg, 'sunspec', 'models', 'smdx')
        os.makedirs(smdx_dir)
        cases, k = [], 0
        for module, cwd, packaged in itertools.product(PLACES, (False, True), (False, True)):
            for mid in (7 + k, 64000 + k, 300 + k):
                name = 'smdx_%05d.xml' % mid
                d = os.path.join(root, 'case%d' % k)
                os.makedirs(os.path.join(d, 'cwd'))
                files = {name: smdx('module', mid)}
                pl = make_list(d, module, 'm', files)
                if cwd:
                    write(os.path.join(d, 'cwd', name), smdx('cwd', mid).encode())
                if packaged:
                    write(os.path.join(smdx_dir, name), smdx('packaged', mid).encode())
                want = 'module' if module in ('has', 'zip') else 'cwd' if cwd else 'packaged' if packaged else None
                cases.append({'id': mid, 'paths': None if pl is None else pl.path, 'cwd': os.path.join(d, 'cwd'), 'want': want,
                              'what': [module, cwd, packaged]})
                k += 1
        p = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(core.VERIF, 'mc', 'packaged.py'), pkg], input=json.dumps(cases).encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=root, env=dict(os.environ, PYTHONPATH=''))
        if p.returncode:
            raise core.HarnessError('packaged definitions: %s' % p.stderr.decode()[-500:])
        outs = json.loads(p.stdout)
        for cs, (kind, got) in zip(cases, outs):
            if cs['want'] is None:
                if kind != 'SunSpecError':
                    raise Violation('definition found nowhere (%s): %s %s' % (cs['what'], kind, got), 'missing definition')
            elif (kind, got) != ('ok', cs['want']):
                raise Violation('definition in places (module path list, current directory, packaged) %s: %s %s, expected %s' %
                                (cs['what'], kind, got, cs['want']), 'definition place')
        shutil.rmtree(root)
        return Obs(steps=len(cases), execs=len(cases), outcomes=[[cs['what'], o] for cs, o in zip(cases, outs)])

    # zip files of every make
    EXTRA = [b'', b'\x99\x99\x04\0abcd', b'\x98\x98\x00\x01' + b'PK\3\4' * 64]
    METHODS = [zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED, zipfile.ZIP_BZIP2, zipfile.ZIP_LZMA]

    class Stream(object):
        """A file written in one go, as to a pipe."""

        def __init__(self, f):
            self.f = f

        def write(self, b):
            return self.f.write(b)

        def flush(self):
            self.f.flush()

    def zip_cases():
        for method in range(len(METHODS)):
            for comment in (0, 20, 65535):
                for before in (0, 512):
                    for folders in (0, 1):
                        for stream in (0, 1):
                            for others in (0, 3, 300):
                                for size in (0, 1, 100, 65535, 65536, 200000):
                                    yield [method, comment, before, folders, stream, others, size, 0]
        for others in (1, 2, 9, 10, 11, 99, 100, 101, 1000):
            for kind in range(3):
                yield [1, 0, 0, 0, 0, 3, 100, others, kind]
        for method in range(len(METHODS)):
            for stream in (0, 1):
                for others in (0, 3):
                    for size in (0, 1, 65536, 200000):
                        for here in range(3):
                            for there in range(3):
                                for big in (0, 1):
                                    yield [method, 0, 0, 0, stream, others, size, 0, 0, here, there, big]

    def zip_run(c):
        method, comment, before, folders, stream, others, size, entries = c[:8]
        here, there, big = c[9:] or (0, 0, 0)
        d = core.scratch_dir('zips')
        z = os.path.join(d, 'z.zip')
        want = (b'%07d\r\n\xe9' % size * (size // 10 + 1))[:size]
        with open(z, 'wb') as f:
            f.write(b'#' * before)
            with zipfile.ZipFile(Stream(f) if stream else f, 'w', METHODS[method]) as a:
                if folders:
                    a.writestr('in/', b'')
                for i in range(others):
                    a.writestr('in/other%d.xml' % i, b'other')
                # the fields a member has in front of its content and those it has in the table at the end, as different tools write them
                info = zipfile.ZipInfo('in/doc.xml')
                info.compress_type, info.extra = METHODS[method], EXTRA[here]
                with a.open(info, 'w', force_zip64=bool(big)) as m:
                    m.write(want)
                info.extra = EXTRA[there]
                a.writestr('in/doc.xml.bak', b'another')
                a.writestr('doc.xml', b'above')
                a.comment = b'c' * comment
        paths = [os.path.join(d, 'z.zip', 'in')]
        if entries:
            os.makedirs(os.path.join(d, 'none'), exist_ok=True)
            miss = [os.path.join(d, 'none'), os.path.join(d, 'missing.zip', 'x'), os.path.join(d, 'z.zip', 'out')][c[8]]
            paths = [miss] * entries + paths + [os.path.join(d, 'z.zip')]
        p = util.PathList(paths)
        for i in range(2):
            got = expect_ok('document in a zip file', p.read, 'doc.xml')
            check(as_bytes(got) == want, 'document of %d bytes in a zip file: %d bytes, begins %r' % (size, len(got), got[:20]), 'wrong content')
        return Obs(steps=2, outcome=c)

    # files added to an archive again and again: the newest is the one that counts
    ADDED = ['in/doc.xml', 'doc.xml', 'in/other.xml', 'in/']

    def added_cases():
        for n in (1, 2, 3, 4):
            for names in itertools.product(range(len(ADDED)), repeat=n):
                for opened in itertools.product((0, 1), repeat=n - 1):
                    yield [list(names), list(opened)]

    def added_run(c):
        names, opened = c
        d = core.scratch_dir('added')
        z = os.path.join(d, 'z.zip')
        have, reads = {}, 0
        f = zipfile.ZipFile(z, 'w')
        for i, n in enumerate(names):
            if i and opened[i - 1]:
                f.close()
                f = zipfile.ZipFile(z, 'a')
            have[ADDED[n]] = b'' if n == 3 else b'version %d' % i
            f.writestr(ADDED[n], have[ADDED[n]])
        f.close()
        for entry, inside in (('z.zip', ''), ('z.zip/in', 'in/')):
            p = util.PathList([os.path.join(d, entry)])
            for name in ('doc.xml', 'other.xml'):
                lookup('files added in the order %s, archive opened again %s' % ([ADDED[n] for n in names], opened), p, d, [entry], name,
                       lambda e, x: have.get(inside + x))
                reads += 1
        return Obs(steps=reads, outcome=c)

    return [
        Family('added', added_cases, added_run, what='archives to which files were added again, in one session or several'),
        Family('zip files', zip_cases, zip_run, what='zip files of every make, members of every size, path lists of up to 1001 entries'),
        Family('path lists', list_cases, list_run, list_setup, what='path lists over all kinds of entries'),
        Family('names', name_cases, name_run, what='directories, zip files and files whose names mean something elsewhere'),
        Family('links', link_cases, link_run, link_setup, what='symbolic links to directories, files and zip files, and ways out of them'),
        Search('changing files', hist_run, 7 if thorough else 6, setup=hist_setup, what='a path list in use while entries are added and files come and go'),
        Search('scopes', scope_run, 8 if thorough else 6, setup=scope_setup, what='nested temporary path lists, left normally or by exceptions'),
        Family('one after another', after_cases, after_run, after_setup, what='devices loaded one after the other under path lists of their own'),
        Family('documents', pics_cases, pics_run, what='PICS documents in all combinations of places'),
        Family('definitions', def_cases, def_run, what='model definitions in all combinations of places, with packaged definitions', serial=True),
    ]
