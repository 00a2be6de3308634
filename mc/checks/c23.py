import itertools
import os
import struct

from .. import core, ref
from ..core import Family, Obs, Violation, call, check, eq, expect_ok
from ..tlsserver import Server, is_tls_stream, path

import sunspec.core.client as client
import sunspec.core.modbus.client as modbus

PROP, LEVEL = 'C23', 'fault_enumeration'
TECHNIQUE = ('exhaustive enumeration of TLS configurations (client options x server certificate x address x demands) and of histories of operations over '
             'servers that change from connection to connection, with real TLS handshakes on the loopback network and every received byte recorded')
RULE = 'one evaluation per configuration or history executed; distinct by configuration'
BOUNDS = ('3 API layers, verification on/off, 5 authority settings, 5 client certificate settings, 13 server certificates, 2 addresses, TLS 1.2 and 1.3, 3 demands for a '
          'client certificate; histories of up to 3 operations over 5 (quick) or 6 (thorough) kinds of server per connection, of 4 operations over 3 kinds (thorough)')
NOTE = 'Exhaustive within the bounds; nothing is sampled. The client runs unchanged on real sockets and the real ssl module. '
ASSUMPTIONS = ['TLS with no client certificate given is not judged except that nothing travels outside a verified session',
               'certificate checks are those of the ssl module: the property is that they are demanded and obeyed']

MErr, CErr = modbus.ModbusClientError, client.SunSpecClientError
TIMEOUT = 20
SLAVE = 3
BASE = 40000
SERVERS = ['good', 'ip', 'dns', 'host', 'cn', 'expired', 'future', 'self', 'foreign', 'purpose', 'chain', 'nochain', 'plain']
CAS = {'ca': 'ca.pem', 'other': 'other.pem', 'bundle': 'bundle.pem', 'none': None, 'missing': 'nothing.pem'}
CLIENTS = {'client': ('client.pem', 'client.key'), 'combined': ('client2.both.pem', None), 'stranger': ('stranger.pem', 'stranger.key'),
           'wrongkey': ('client.pem', 'client2.key'), 'nofile': ('nothing.pem', 'client.key')}
SUBJECT = {'client': 'client', 'combined': 'client2', 'stranger': 'stranger'}
ADDRS = ['127.0.0.1', 'localhost']
LAYERS = ['modbus', 'client', 'script']


def registers():
    regs = ref.image(BASE, [(64998, 2, [11, 22])])
    return dict(regs)


def trusted(cert, ca, env=None):
    """Whether the certificate chains to the authority and is usable for a server now."""
    anchors = {'ca': {'ca'}, 'other': {'other'}, 'bundle': {'ca', 'other'}, 'none': {env} if env else set(), 'missing': set()}[ca]
    issuer = {'foreign': 'other', 'self': None, 'nochain': None, 'plain': None}.get(cert, 'ca')
    return issuer in anchors and cert not in ('expired', 'future', 'purpose')


def names(cert, addr):
    if cert == 'ip':
        return addr == '127.0.0.1'
    if cert == 'dns':
        return addr == 'localhost'
    return cert not in ('host', 'cn')


def kwargs(ca, cl):
    cert, key = CLIENTS[cl] if cl else (None, None)
    return {'cafile': CAS[ca] and path(CAS[ca]), 'certfile': cert and path(cert), 'keyfile': key and path(key)}


def spec(cert, version=13, demand='none', **kw):
    if cert in ('plain', 'silent', 'closing', 'talking'):
        return {'kind': cert}
    return dict(kind='tls', cert=cert, version=version, demand=demand, **kw)


def read_adu(addr, n):
    return struct.pack('>HHHBBHH', 0, 0, 6, SLAVE, 3, addr, n)


def write_adu(addr, vals):
    return struct.pack('>HHHBBHHB', 0, 0, 7 + 2 * len(vals), SLAVE, 16, addr, len(vals), 2 * len(vals)) + struct.pack('>%dH' % len(vals), *vals)


def stripped(adu):
    """Transaction ids are the client's own business."""
    return adu[2:]


def watch(server, tls, may):
    """Every connection: what it received. may(spec): requests may be sent to such a server."""
    for c in server.conns:
        if tls:
            check(is_tls_stream(c.raw), 'bytes outside TLS reached the server: %s' % c.raw[:80].hex(), 'outside TLS')
            if c.spec['kind'] != 'tls':
                continue
            if not may(c.spec):
                check(not c.plain, 'a request reached a server that must not be trusted (%s): %s' % (c.spec['cert'], c.plain.hex()), 'request to untrusted server')


def run_layer(layer, addr, port, kw, timeout=TIMEOUT):
    """Read, write and read through an API layer. Returns ('ok', values) or ('exc', exception)."""
    vals = [33, 44]
    if layer == 'modbus':
        def go():
            d = modbus.ModbusClientDeviceTCP(SLAVE, addr, port, timeout=timeout, **kw)
            try:
                d.connect()
                a = d.read(BASE + 4, 2)
                d.write(BASE + 4, struct.pack('>2H', *vals))
                b = d.read(BASE + 4, 2)
            finally:
                d.close()
            return a, b
        return call(go)
    if layer == 'client':
        def go():
            d = client.ClientDevice(client.TCP, SLAVE, ipaddr=addr, ipport=port, timeout=timeout, **kw)
            try:
                a = d.read(BASE + 4, 2)
                d.write(BASE + 4, struct.pack('>2H', *vals))
                b = d.read(BASE + 4, 2)
            finally:
                d.close()
            return a, b
        return call(go)

    def go():
        d = client.SunSpecClientDevice(client.TCP, SLAVE, ipaddr=addr, ipport=port, timeout=timeout, **kw)
        try:
            check([int(m.id) for m in d.device.models_list] == [64998], 'scan found %r' % (d.device.models_list,), 'scan')
            a = d.device.read(BASE + 4, 2)
            d.device.write(BASE + 4, struct.pack('>2H', *vals))
            b = d.device.read(BASE + 4, 2)
        finally:
            d.close()
        return a, b
    return call(go)


def config_run(c, env=None):
    layer, tls, insecure, ca, cl, cert, addr, version, demand = c
    sp = spec(cert, version, demand)
    server = Server(lambda i: sp, registers())
    old = os.environ.pop('SSL_CERT_FILE', None)
    if env:
        os.environ['SSL_CERT_FILE'] = path(env + '.pem')
    try:
        kw = kwargs(ca, cl)
        kw['insecure_skip_tls_verify'] = bool(insecure)
        if tls:
            kw['tls'] = True
        kind, v = run_layer(layer, addr, server.port, kw)
    finally:
        os.environ.pop('SSL_CERT_FILE', None)
        if old is not None:
            os.environ['SSL_CERT_FILE'] = old
        server.stop()
    what = '%s tls=%s insecure=%s authority=%s client=%s server=%s at %s TLS1.%d demand=%s' % (layer, tls, insecure, ca, cl, cert, addr, version - 10, demand)
    may = insecure or (trusted(cert, ca, env) and names(cert, addr))
    watch(server, tls, lambda s: may)
    if kind == 'exc':
        check(isinstance(v, MErr if layer == 'modbus' else CErr), '%s: raised %s: %s' % (what, type(v).__name__, v), 'error type')
    usable = cl in SUBJECT and ca != 'missing'
    if tls:
        want = cert != 'plain' and may and usable and not (demand != 'none' and cl == 'stranger')
        open_case = cl is None or (ca == 'missing' and insecure)
    else:
        want = cert == 'plain'
        open_case = False
    if want and not open_case:
        check(kind == 'ok', '%s: failed: %s' % (what, v), 'session refused')
    if not want and not (open_case and may and cert != 'plain'):
        check(kind == 'exc', '%s: succeeded' % what, 'session accepted')
    if kind == 'ok':
        eq('%s: values read' % what, [bytes(x) for x in v], [struct.pack('>2H', 11, 22), struct.pack('>2H', 33, 44)])
        reqs = [stripped(r) for k in server.conns for r in k.requests]
        tail = [stripped(r) for r in (read_adu(BASE + 4, 2), write_adu(BASE + 4, [33, 44]), read_adu(BASE + 4, 2))]
        eq('%s: requests' % what, reqs[-3:], tail)
        if tls and demand != 'none' and cl is not None:
            for k in server.conns:
                eq('%s: client certificate presented' % what, k.peer, SUBJECT[cl])
    return Obs(steps=len(server.conns) + sum(len(k.requests) for k in server.conns) + 1, outcome=[c, env, kind])


# ---- histories

BEHAVIOURS = ['good', 'host', 'foreign', 'plain', 'closing', 'drop']
QUICK = ['good', 'host', 'foreign', 'plain', 'drop']
DEEP = ['good', 'foreign', 'plain']
OPS = ['connect', 'read', 'write', 'disconnect']


def model(hist, insecure):
    """hist: (op, behaviour of the connection it makes or None). Yields (connected before, expected ok)."""
    connected = None
    for op, b in hist:
        if op == 'connect':
            good = b in ('good', 'drop') or insecure and b in ('host', 'foreign')
            connected = b if good else None
            yield good
        elif op == 'disconnect':
            connected = None
            yield True
        else:
            at = connected if connected is not None else b
            good = at == 'good' or insecure and at in ('host', 'foreign')
            if not good:
                connected = None
            yield good


def makes(hist, insecure, op):
    """Whether the operation makes a connection after the history."""
    if op == 'disconnect':
        return False
    if op == 'connect':
        return True
    connected = False
    for (o, b), good in zip(hist, model(hist, insecure)):
        if o in ('connect', 'disconnect'):
            connected = good and o == 'connect'
        elif not good:
            connected = False
    return not connected


def histories(depth, insecure, behaviours):
    def grow(h):
        if h:
            yield h
        if len(h) < depth:
            for op in OPS:
                for b in (behaviours if makes(h, insecure, op) else [None]):
                    for x in grow(h + [(op, b)]):
                        yield x
    return grow([])


def history_run(c):
    insecure, version, hist = c
    hist = [tuple(x) for x in hist]
    behaviours = [b for op, b in hist if b is not None]

    def specs(i):
        if i >= len(behaviours):
            return None
        b = behaviours[i]
        return spec('good', version, 'optional', drop=True) if b == 'drop' else spec(b, version, 'optional')
    server = Server(specs, registers())
    d = modbus.ModbusClientDeviceTCP(SLAVE, '127.0.0.1', server.port, timeout=TIMEOUT, tls=True, insecure_skip_tls_verify=bool(insecure), **kwargs('ca', 'client'))
    got, n = [], 0
    regs = {BASE + 4: 11, BASE + 5: 22}
    try:
        for (op, b), good in zip(hist, model(hist, insecure)):
            n += 1
            if op == 'connect':
                k, v = call(d.connect)
            elif op == 'disconnect':
                k, v = call(d.disconnect)
            elif op == 'read':
                k, v = call(d.read, BASE + 4, 2)
            else:
                vals = [100 + n, 200 + n]
                k, v = call(d.write, BASE + 4, struct.pack('>2H', *vals))
            what = 'operation %d of %r (insecure %s)' % (n, hist, insecure)
            if good:
                check(k == 'ok', '%s: failed: %s' % (what, v), 'session refused')
                if op == 'read':
                    eq('%s: values' % what, bytes(v), struct.pack('>2H', regs[BASE + 4], regs[BASE + 5]))
                elif op == 'write':
                    regs[BASE + 4], regs[BASE + 5] = vals
            else:
                check(k == 'exc', '%s: succeeded' % what, 'session accepted')
                check(isinstance(v, MErr), '%s: raised %s: %s' % (what, type(v).__name__, v), 'error type')
            got.append(k)
    finally:
        call(d.close)
        server.stop()
    watch(server, True, lambda s: insecure or s['cert'] == 'good')
    eq('connections made in %r' % (hist,), len(server.conns), len(behaviours))
    for a in regs:
        eq('register after %r' % (hist,), server.regs[a], regs[a])
    for c_ in server.conns:
        if c_.established and c_.requests:
            eq('client certificate in %r' % (hist,), c_.peer, 'client')
    return Obs(steps=n, outcome=[insecure, version, hist, got])


def families(tier):
    thorough = tier == 'thorough'

    def configs():
        for cert, ca, insecure, cl, addr in itertools.product(SERVERS, CAS, (0, 1), CLIENTS, ADDRS):
            full = cert in ('good', 'host', 'foreign') and ca in ('ca', 'none') and cl in ('client', 'combined', 'stranger')
            for layer in LAYERS:
                for version in (12, 13):
                    for demand in ('none', 'optional', 'required'):
                        if thorough or full or (layer, version) in (('modbus', 13), ('client', 12)) and demand == 'required':
                            yield [layer, 1, insecure, ca, cl, cert, addr, version, demand]

    def plain():
        for layer, insecure, ca, cl, cert, addr in itertools.product(LAYERS, (0, 1), ('ca', 'none', 'missing'), (None, 'client', 'nofile'), ('plain', 'good', 'foreign'), ADDRS):
            yield [layer, 0, insecure, ca, cl, cert, addr, 13, 'none']

    def nocert():
        for layer, insecure, ca, cert, addr in itertools.product(LAYERS, (0, 1), CAS, SERVERS, ADDRS):
            yield [layer, 1, insecure, ca, None, cert, addr, 13, 'none']

    def env_cases():
        for env, layer, insecure, ca, cert, addr in itertools.product(('ca', 'other'), ('modbus', 'client'), (0, 1), ('ca', 'other', 'none', 'bundle'), ('good', 'host', 'foreign', 'expired'), ADDRS):
            yield [env, [layer, 1, insecure, ca, 'client', cert, addr, 13, 'required']]

    def env_run(c):
        return config_run(c[1], c[0])

    def stall_cases():
        for kind, layer, insecure in itertools.product(('silent', 'talking', 'closing'), LAYERS, (0, 1)):
            yield [kind, layer, insecure]

    def stall_run(c):
        kind, layer, insecure = c
        server = Server(lambda i: spec(kind), registers())
        try:
            kw = kwargs('ca', 'client')
            t0 = core.real_monotonic()
            k, v = run_layer(layer, '127.0.0.1', server.port, dict(kw, tls=True, insecure_skip_tls_verify=bool(insecure)), timeout=0.3)
            dt = core.real_monotonic() - t0
        finally:
            server.stop()
        watch(server, True, lambda s: False)
        check(k == 'exc', '%s server: succeeded' % kind, 'session accepted')
        check(isinstance(v, MErr if layer == 'modbus' else CErr), '%s server: raised %s: %s' % (kind, type(v).__name__, v), 'error type')
        check(dt < 60, '%s server: the timeout of 0.3 s is not obeyed (%.1f s)' % (kind, dt), 'timeout')
        return Obs(steps=1, outcome=c)

    def hist_cases():
        for insecure in (0, 1):
            for version in ((12, 13) if thorough else (13,)):
                for h in histories(3, insecure, BEHAVIOURS if thorough else QUICK):
                    yield [insecure, version, [list(x) for x in h]]
            if thorough:
                for h in histories(4, insecure, DEEP):
                    if len(h) == 4:
                        yield [insecure, 13, [list(x) for x in h]]

    return [
        Family('configurations', configs, config_run, what='TLS options x server certificates x addresses x demands'),
        Family('plain', plain, config_run, what='without TLS, against plain and TLS servers'),
        Family('no-certificate', nocert, config_run, what='TLS without a client certificate: nothing outside a verified session'),
        Family('system-store', env_cases, env_run, what='authorities in the system store while an authority is given'),
        Family('stalling', stall_cases, stall_run, what='servers that do not speak TLS'),
        Family('histories', hist_cases, history_run, what='operation histories over servers that change between connections'),
    ]
