"""A real Modbus server on the loopback network, plain or TLS, that records everything its connections receive.

TLS runs over memory BIOs, so the raw bytes of every connection are recorded as well as what they decrypt to.
"""
import os
import socket
import ssl
import struct
import threading

DIR = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tls')


def path(name):
    return os.path.join(DIR, name)


class Conn(object):
    def __init__(self, spec):
        self.spec = spec
        self.raw = b''            # everything received
        self.plain = b''          # decrypted (or plain) Modbus bytes
        self.requests = []        # ADUs
        self.peer = None          # subject CN of the client certificate
        self.established = False


_contexts = {}


def context(cert, version, demand):
    k = (cert, version, demand)
    if k not in _contexts:
        c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        c.load_cert_chain(path(cert + '.pem'), path(cert + '.key'))
        v = {12: ssl.TLSVersion.TLSv1_2, 13: ssl.TLSVersion.TLSv1_3}[version]
        c.minimum_version = c.maximum_version = v
        if demand != 'none':
            c.verify_mode = ssl.CERT_REQUIRED if demand == 'required' else ssl.CERT_OPTIONAL
            c.load_verify_locations(path('ca.pem'))
        _contexts[k] = c
    return _contexts[k]


class Server(object):
    """specs(i) gives what connection number i meets: a dict with kind tls / plain / silent / closing / talking, and for tls
    cert, version, demand; drop: the connection is closed when a request comes."""

    def __init__(self, specs, regs):
        self.specs, self.regs = specs, regs
        self.conns, self.threads, self.open = [], [], []
        self.lock = threading.Lock()
        self.listener = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        self.listener.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.listener.bind(('127.0.0.1', 0))
        self.listener.listen(16)
        self.port = self.listener.getsockname()[1]
        self.acceptor = threading.Thread(target=self.accept, daemon=True)
        self.acceptor.start()

    def accept(self):
        while True:
            try:
                s, _ = self.listener.accept()
            except OSError:
                return
            s.settimeout(30)
            c = Conn(self.specs(len(self.conns)))
            if c.spec is None:
                s.close()
                return
            self.conns.append(c)
            self.open.append(s)
            t = threading.Thread(target=self.serve, args=(s, c), daemon=True)
            self.threads.append(t)
            t.start()

    def stop(self):
        """The client has closed: wait until all it sent has been seen."""
        try:
            self.listener.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.acceptor.join(5)
        self.listener.close()
        for t, s in zip(self.threads, self.open):
            t.join(1)
            if t.is_alive():
                try:
                    s.shutdown(socket.SHUT_RDWR)
                except OSError:
                    pass
                t.join(10)
            s.close()

    def serve(self, s, c):
        try:
            kind = c.spec['kind']
            if kind == 'closing':
                return
            if kind == 'talking':
                s.sendall(b'\x00' * 9 + b'not TLS at all')
            tls = None
            if kind == 'tls':
                inb, outb = ssl.MemoryBIO(), ssl.MemoryBIO()
                tls = context(c.spec['cert'], c.spec['version'], c.spec['demand']).wrap_bio(inb, outb, server_side=True)
            while True:
                d = s.recv(65536)
                if not d:
                    return
                c.raw += d
                if kind in ('silent', 'talking'):
                    continue
                if tls is None:
                    c.plain += d
                else:
                    inb.write(d)
                    try:
                        if not c.established:
                            tls.do_handshake()
                            c.established = True
                            cert = tls.getpeercert()
                            if cert:
                                c.peer = dict(x[0] for x in cert['subject'])['commonName']
                        while True:
                            p = tls.read(65536)
                            if not p:
                                return
                            c.plain += p
                    except ssl.SSLWantReadError:
                        pass
                    except ssl.SSLError:
                        if outb.pending:
                            s.sendall(outb.read())
                        return
                    if outb.pending:
                        s.sendall(outb.read())
                for reply in self.answers(c):
                    if reply is None:
                        return
                    if tls is None:
                        s.sendall(reply)
                    else:
                        tls.write(reply)
                        s.sendall(outb.read())
        except OSError:
            pass
        finally:
            try:
                s.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass

    def answers(self, c):
        done = sum(len(r) for r in c.requests)
        while len(c.plain) - done >= 6:
            n = 6 + struct.unpack('>H', c.plain[done + 4:done + 6])[0]
            if len(c.plain) - done < n:
                return
            adu = c.plain[done:done + n]
            done += n
            c.requests.append(adu)
            if c.spec.get('drop') or adu[2:4] != b'\0\0' or len(adu) < 8:
                yield None
                return
            with self.lock:
                pdu = self.pdu(adu[7:])
            yield adu[:4] + struct.pack('>HB', len(pdu) + 1, adu[6]) + pdu

    def pdu(self, p):
        f = p[0]
        if len(p) < 5:
            return bytes([f | 0x80, 3])
        addr, count = struct.unpack('>HH', p[1:5])
        span = range(addr, addr + count)
        if f not in (3, 16):
            return bytes([f | 0x80, 1])
        if not all(a in self.regs for a in span):
            return bytes([f | 0x80, 2])
        if f == 3:
            return struct.pack('>BB', 3, 2 * count) + b''.join(struct.pack('>H', self.regs[a]) for a in span)
        for a, v in zip(span, struct.unpack('>%dH' % count, p[6:6 + 2 * count])):
            self.regs[a] = v
        return p[:5]


def is_tls_stream(raw):
    """Whether the bytes are TLS records only (the last one may be cut)."""
    while raw:
        if raw[0] not in (20, 21, 22, 23) or len(raw) > 1 and raw[1] != 3:
            return False
        if len(raw) < 5:
            return True
        n = struct.unpack('>H', raw[3:5])[0]
        if n > 16384 + 256:
            return False
        raw = raw[5 + n:]
    return True
