"""The simulated outside world: strict Modbus servers behind a simulated network and simulated serial ports.

Importing this module replaces socket.socket and serial.Serial (and time.sleep) for this process. Nothing here uses code
of the library under test; the CRC and the frame formats are implemented independently.

Every point at which the environment may answer in several ways is announced to `world.plan` (see Plan classes), which
picks the answer; the default answer is the healthy one.
"""
import errno
import socket as _socket
import ssl as _ssl  # noqa: F401  (must be imported before socket.socket is replaced)
import struct
import time as _time

import termios as _termios

import serial as _serial

from .core import HarnessError, Runaway

# what the operating system and the libraries below the client raise besides the usual errors
# messages are text and nothing else
MARKS = ': 100% %s %d {} {0} {x} \\'
ODD = {'name': lambda: _socket.gaierror(-2, 'Name or service not known' + MARKS), 'encoding': lambda: TypeError('encoding of hostname failed'),
       'unicode': lambda: UnicodeError("encoding with 'idna' codec failed"), 'overflow': lambda: OverflowError('connect(): port must be 0-65535.'),
       'termios': lambda: _termios.error(5, 'Input/output error' + MARKS), 'oserror': lambda: OSError(errno.EIO, 'Input/output error' + MARKS),
       'type': lambda: TypeError("'NoneType' object cannot be interpreted as an integer"), 'value': lambda: ValueError('not a valid value' + MARKS),
       'attribute': lambda: AttributeError("'NoneType' object has no attribute 'recv'"), 'runtime': lambda: RuntimeError('no'),
       'ssl': lambda: _ssl.SSLError(1, 'record layer failure' + MARKS)}

real_socket = _socket.socket
real_getaddrinfo = _socket.getaddrinfo
real_sleep = _time.sleep

READ_MAX, WRITE_MAX = 125, 123


def crc16(data):
    """Modbus CRC, bit by bit, returned as the two bytes in transmission order."""
    c = 0xFFFF
    for b in data:
        c ^= b
        for _ in range(8):
            c = (c >> 1) ^ 0xA001 if c & 1 else c >> 1
    return struct.pack('<H', c)


# ---------------------------------------------------------------- devices

class Late(bytes):
    """A frame that arrives when the client has given up waiting."""


class SimDevice(object):
    """A Modbus slave: a sparse dictionary of holding (and, optionally, input) registers."""

    def __init__(self, regs=None, read_funcs=(3,), inputs=None):
        self.regs = dict(regs or {})
        self.inputs = dict(inputs or {})
        self.read_funcs = read_funcs
        self.log = []             # ('r', func, addr, count) / ('w', addr, (values...)) as received
        self.applied = []         # writes that took effect
        self.illegal = []         # requests refused, with the exception code

    def copy(self):
        d = SimDevice(self.regs, self.read_funcs, self.inputs)
        return d

    def read_pdu(self, func, addr, count):
        self.log.append(('r', func, addr, count))
        if func not in self.read_funcs and not (func == 4 and self.inputs):
            return self.exc(func, 1)
        if not 1 <= count <= READ_MAX:
            return self.exc(func, 3)
        src = self.inputs if func == 4 and self.inputs else self.regs
        try:
            vals = [src[addr + i] for i in range(count)]
        except KeyError:
            return self.exc(func, 2)
        return struct.pack('>BB', func, 2 * count) + struct.pack('>%dH' % count, *vals)

    def write_pdu(self, addr, count, data, apply=True):
        vals = struct.unpack('>%dH' % (len(data) // 2), data)
        self.log.append(('w', addr, vals))
        if not 1 <= count <= WRITE_MAX or len(data) != 2 * count:
            return self.exc(16, 3)
        if any(addr + i not in self.regs for i in range(count)):
            return self.exc(16, 2)
        if apply:
            for i, v in enumerate(vals):
                self.regs[addr + i] = v
            self.applied.append((addr, vals))
        return struct.pack('>BHH', 16, addr, count)

    def exc(self, func, code):
        self.illegal.append((func, code))
        return bytes([func | 0x80, code])


class Request(object):
    """One request as the server understood it."""

    def __init__(self, transport, unit, pdu, where):
        self.transport, self.unit, self.pdu, self.where = transport, unit, pdu, where
        self.func = pdu[0]
        self.write = self.func == 16
        self.at = world.clock


# ---------------------------------------------------------------- plans: who decides the environment's answers

class Healthy(object):
    accepts = ()              # how many bytes each next call of send() takes (a full socket buffer takes fewer than offered)

    def accept(self, n):
        k, self.accepts = (self.accepts[0], self.accepts[1:]) if self.accepts else (n, ())
        return max(1, min(k, n))

    def choose(self, kind, menu, ctx=None):
        return None

    def pieces(self, n):
        return None


class ByIndex(Healthy):
    """Deviate at the given positions: {index among all points (or among the points of a kind): answer}."""

    def __init__(self, answers, per_kind=True):
        self.answers = {((k[0], k[1]) if isinstance(k, (tuple, list)) else k): v for k, v in answers.items()}
        self.counts = {}
        self.per_kind = per_kind
        self.used = set()

    def choose(self, kind, menu, ctx=None):
        i = self.counts.get(kind, 0)
        self.counts[kind] = i + 1
        a = self.answers.get((kind, i))
        if a is not None:
            self.used.add((kind, i))
        return a


class ByChooser(Healthy):
    """Every point asks the explorer; the menu per kind is given (kinds without an entry answer healthily)."""

    def __init__(self, chooser, menus, pieces=None):
        self.chooser, self.menus, self._pieces = chooser, menus, pieces

    def choose(self, kind, menu, ctx=None):
        m = self.menus.get(kind)
        if not m:
            return None
        i = self.chooser.choose(kind, 1 + len(m))
        return None if i == 0 else m[i - 1]

    def pieces(self, n):
        return self._pieces(n) if self._pieces else None


class Queue(Healthy):
    """Answers for the next requests, in order (kind 'reply' only); healthy when exhausted."""

    def __init__(self, answers=(), pieces=None):
        self.q = list(answers)
        self._pieces = pieces

    def choose(self, kind, menu, ctx=None):
        if kind == 'reply' and self.q:
            return self.q.pop(0)
        return None

    def pieces(self, n):
        return self._pieces(n) if self._pieces else None


class World(object):
    def __init__(self):
        self.reset()

    def reset(self, plan=None):
        self.plan = plan or Healthy()
        self.tcp = {}              # (host, port) -> {unit: SimDevice}
        self.ports = {}            # port name -> {unit: SimDevice}
        self.fds = []              # every socket created, with its state
        self.handles = []          # every serial handle created
        self.malformed = []        # requests that are not well-formed
        self.requests = []         # every request that arrived at a server
        self.wire = []             # ('>' or '<', bytes) of complete requests and delivered replies
        self.calls = 0
        self.budget = 200000
        self.clock = 0.0
        self.conn_log = []         # ('open'|'close', id)
        self.max_conns = 0

    # -- bookkeeping
    def io(self):
        self.calls += 1
        if self.calls > self.budget:
            raise Runaway('more than %d I/O calls' % self.budget)

    def open_fds(self):
        return [f for f in self.fds if not f.closed]

    def open_conns(self, peer=None):
        return [f for f in self.fds if f.connected and not f.closed and (peer is None or f.peer == peer)]

    def open_handles(self, port=None):
        return [h for h in self.handles if h.open and (port is None or h.port == port)]

    def choose(self, kind, menu=(), ctx=None):
        return self.plan.choose(kind, menu, ctx)

    # -- serving one request: returns (reply PDU or None, delivery) after consulting the plan
    def serve(self, req, devices):
        self.requests.append(req)
        dev = devices.get(req.unit)
        a = self.choose('reply', ctx=req)
        kind = a if isinstance(a, str) else (a[0] if a else None)
        arg = a[1] if isinstance(a, (tuple, list)) and len(a) > 1 else None
        apply = kind not in ('drop', 'exc', 'reset', 'eof')
        pdu = None
        if dev is None:
            pdu = None
        elif kind == 'exc':
            dev.log.append(self.parse(req, dev, apply=None))
            pdu = bytes([req.func | 0x80, arg if arg is not None else 4])
        elif kind in ('drop', 'reset', 'eof'):
            pdu = None
        elif apply:
            pdu = self.parse(req, dev, apply=True)
        return pdu, kind, arg

    def parse(self, req, dev, apply):
        p = req.pdu
        if req.func in (3, 4):
            addr, count = struct.unpack('>HH', p[1:5])
            if apply is None:
                return ('r', req.func, addr, count)
            return dev.read_pdu(req.func, addr, count)
        if req.func == 16:
            addr, count, n = struct.unpack('>HHB', p[1:6])
            if apply is None:
                return ('w', addr, struct.unpack('>%dH' % (n // 2), p[6:]))
            return dev.write_pdu(addr, count, p[6:])
        dev.log.append(('?', req.func))
        return dev.exc(req.func, 1)


world = World()


def pdu_complete(p):
    """Length of the request PDU starting at p, or None while it is incomplete; 0 if it cannot be a request."""
    if not p:
        return None
    if p[0] in (3, 4):
        return 5
    if p[0] == 16:
        return None if len(p) < 6 else 6 + p[5]
    return 0


# ---------------------------------------------------------------- network

class Fd(object):
    """closed: explicitly; collected: dropped without being closed, which the interpreter may or may not clean up."""

    def __init__(self):
        self.closed = self.connected = self.collected = False
        self.peer = None
        self.timeouts = []


class FakeSocket(object):
    def __init__(self, family=-1, type=-1, proto=-1, fileno=None):
        world.io()
        self.fd = None
        a = world.choose('socket')
        if a in ODD:
            raise ODD[a]()
        if a is not None:
            raise OSError(errno.EMFILE, 'Too many open files' + MARKS)
        self.fd = Fd()
        self.w = world
        world.fds.append(self.fd)
        self._timeout = _socket.getdefaulttimeout()
        self.devices = None
        self.rx = []              # pieces waiting: bytes, or exceptions, or None for end of stream
        self.late = []            # arrives after a timeout
        self.tx = b''
        self.dead = None          # exception class for everything from now on

    def __del__(self):
        if self.fd is not None:
            self.fd.collected = True

    def _close(self):
        if not self.fd.closed:
            self.fd.closed = True
            if self.fd.connected:
                self.w.conn_log.append(('close', self.fd))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def fileno(self):
        return -1 if self.fd.closed else 1000

    def settimeout(self, t):
        if t is not None:
            t = float(t)
            if t < 0:
                raise ValueError('Timeout value out of range')
        self._timeout = t
        self.fd.timeouts.append(t)

    def gettimeout(self):
        return self._timeout

    def setblocking(self, flag):
        self._timeout = None if flag else 0.0

    def setsockopt(self, *a):
        pass

    def getpeername(self):
        if not self.fd.connected or self.fd.closed:
            raise OSError(errno.ENOTCONN, 'Transport endpoint is not connected')
        return self.peer

    def bind(self, addr):
        pass

    def _check(self):
        world.io()
        if self.fd.closed:
            raise OSError(errno.EBADF, 'Bad file descriptor')

    def connect(self, addr):
        self._check()
        if self.fd.connected:
            raise OSError(errno.EISCONN, 'Transport endpoint is already connected')
        host, port = addr
        if not isinstance(host, (str, bytes, bytearray)):
            raise TypeError('str, bytes or bytearray expected, not %s' % type(host).__name__)
        if isinstance(host, str):
            if '\0' in host:
                raise TypeError('host name must not contain null character')
            if not host.isascii():
                try:
                    host.encode('idna')
                except UnicodeError:
                    raise TypeError('encoding of hostname failed')
        if not isinstance(port, int):
            raise TypeError("'%s' object cannot be interpreted as an integer" % type(port).__name__)
        if not 0 <= port <= 65535:
            raise OverflowError('connect(): port must be 0-65535.')
        a = world.choose('connect', ctx=addr)
        if a in ODD:
            raise ODD[a]()
        if a == 'timeout':
            self._block()
            raise _socket.timeout('timed out')
        if a == 'unreachable':
            raise OSError(errno.EHOSTUNREACH, 'No route to host' + MARKS)
        self.devices = world.tcp.get(tuple(addr))
        if a == 'refused' or self.devices is None:
            raise ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused' + MARKS)
        if a is not None:
            raise HarnessError('connect: %r' % (a,))
        self.fd.connected = True
        self.peer = self.fd.peer = tuple(addr)
        world.conn_log.append(('open', self.fd))
        world.max_conns = max(world.max_conns, len(world.open_conns(self.peer)))

    def connect_ex(self, addr):
        try:
            self.connect(addr)
        except OSError as e:
            return e.errno or errno.ETIMEDOUT
        return 0

    def _block(self):
        if self._timeout is None:
            raise Runaway('waits for ever: blocking call on a socket without timeout')
        world.clock += self._timeout

    def send(self, data, flags=0):
        self._check()
        if not self.fd.connected:
            raise BrokenPipeError(errno.EPIPE, 'Broken pipe' + MARKS)
        if self.dead:
            raise self.dead
        a = world.choose('send')
        if a in ODD:
            raise ODD[a]()
        if a == 'reset':
            self.dead = ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer' + MARKS)
            raise self.dead
        if a == 'pipe':
            self.dead = BrokenPipeError(errno.EPIPE, 'Broken pipe' + MARKS)
            raise self.dead
        if a == 'timeout':
            raise _socket.timeout('timed out')
        if a == 'partial':        # half of it leaves, then the call times out
            self._deliver(bytes(data)[:len(data) // 2])
            raise _socket.timeout('timed out')
        if a is not None:
            raise HarnessError('send: %r' % (a,))
        data = bytes(data)
        n = world.plan.accept(len(data)) if data else 0
        self._deliver(data[:n])
        return n

    def sendall(self, data, flags=0):
        data = bytes(data)
        while True:
            data = data[self.send(data):]
            if not data:
                return

    def _deliver(self, data):
        self.tx += data
        while len(self.tx) >= 6:
            tid, proto, n = struct.unpack('>HHH', self.tx[:6])
            if len(self.tx) < 6 + n and n <= 260:
                return
            frame, self.tx = self.tx[:6 + n], self.tx[6 + n:]
            body = frame[6:]
            if proto != 0 or n < 2 or n > 260 or pdu_complete(body[1:]) != n - 1:
                world.malformed.append(('tcp', frame))
                return
            p = body[1:]
            if p[0] == 16 and struct.unpack('>H', p[3:5])[0] * 2 != p[5]:
                world.malformed.append(('tcp', frame))
                return
            world.wire.append(('>', frame))
            pdu, kind, arg = world.serve(Request('tcp', body[0], p, self.peer), self.devices)
            if kind == 'reset' or kind == 'reset_after':
                self.rx.append(ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer' + MARKS))
                continue
            if kind == 'eof' or kind == 'eof_after':
                self.rx.append(None)
                continue
            if pdu is None or kind == 'lost':
                continue
            reply = struct.pack('>HHHB', tid, 0, len(pdu) + 1, body[0]) + pdu
            self._reply(reply, kind, arg)

    def _reply(self, reply, kind, arg):
        if kind in (None, 'exc'):
            pass
        elif kind == 'raw':               # the given bytes instead
            reply = bytes(arg)
        elif kind == 'pdu':               # the given PDU instead, in a correct header
            reply = reply[:4] + struct.pack('>HB', len(arg) + 1, reply[6]) + bytes(arg)
        elif kind == 'unit':
            reply = reply[:6] + bytes([arg]) + reply[7:]
        elif kind == 'map':               # arg: function of the correct reply
            reply = arg(reply)
        elif kind == 'trunc':             # only the first arg bytes, then silence
            reply = reply[:arg]
        elif kind == 'trunc_eof':
            self._queue(reply[:arg])
            self.rx.append(None)
            return
        elif kind == 'trunc_reset':
            self._queue(reply[:arg])
            self.rx.append(ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer' + MARKS))
            return
        elif kind == 'late':
            self.late.append(reply)
            return
        elif kind == 'trunc_late':        # the rest arrives when the client has given up waiting
            self._queue(reply[:arg])
            self.late.append(reply[arg:])
            return
        else:
            raise HarnessError('reply: %r' % (kind,))
        self._queue(reply)

    def _queue(self, reply):
        if not reply:
            return
        world.wire.append(('<', reply))
        pcs = world.plan.pieces(len(reply))
        if pcs is None:
            self.rx.append(reply)
        else:
            i = 0
            for n in pcs:
                self.rx.append(reply[i:i + n])
                i += n
            if i < len(reply):
                self.rx.append(reply[i:])

    def recv(self, n, flags=0):
        self._check()
        if not self.fd.connected:
            raise OSError(errno.ENOTCONN, 'Transport endpoint is not connected')
        if self.dead:
            raise self.dead
        if n < 0:
            raise ValueError('negative buffersize in recv')
        a = world.choose('recv')
        if a in ODD:
            raise ODD[a]()
        if a == 'timeout':
            self._block()
            raise _socket.timeout('timed out')
        if a == 'reset':
            self.dead = ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer' + MARKS)
            raise self.dead
        if a == 'eof':
            self.rx.insert(0, None)
        elif a is not None:
            raise HarnessError('recv: %r' % (a,))
        if n == 0:
            return b''
        if not self.rx:
            self._block()
            for x in self.late:
                world.wire.append(('<', Late(x)))
            self.rx += self.late
            self.late = []
            raise _socket.timeout('timed out')
        p = self.rx[0]
        if p is None:
            return b''
        if isinstance(p, Exception):
            self.dead = p
            raise p
        out, rest = p[:n], p[n:]
        if rest:
            self.rx[0] = rest
        else:
            self.rx.pop(0)
        return out

    def recv_into(self, buf, nbytes=0, flags=0):
        d = self.recv(nbytes or len(buf))
        buf[:len(d)] = d
        return len(d)

    def makefile(self, *a, **k):
        raise HarnessError('makefile is not simulated')

    def shutdown(self, how):
        self._check()
        if not self.fd.connected:
            raise OSError(errno.ENOTCONN, 'Transport endpoint is not connected')

    def close(self):
        world.io()
        a = None if self.fd.closed else world.choose('sclose')
        self._close()             # the descriptor is gone, also when the system reports an error
        if a is not None:
            raise OSError(errno.EIO, 'Input/output error' + MARKS)

    def detach(self):
        self._close()
        return 1000


def fake_getaddrinfo(host, port, family=0, type=0, proto=0, flags=0):
    return [(_socket.AF_INET, _socket.SOCK_STREAM, 6, '', (host, port))]


# ---------------------------------------------------------------- serial ports

class Handle(object):
    def __init__(self, port, baudrate, parity, timeout):
        self.port, self.baudrate, self.parity, self.timeout = port, baudrate, parity, timeout
        self.open = True
        self.collected = False


SerialException = _serial.SerialException
SerialTimeoutException = _serial.SerialTimeoutException


class FakeSerial(object):
    def __init__(self, port=None, baudrate=9600, bytesize=8, parity='N', stopbits=1, timeout=None, xonxoff=False,
                 rtscts=False, write_timeout=None, dsrdtr=False, inter_byte_timeout=None, exclusive=None, **kw):
        world.io()
        self.h = None
        self.name = self.port = port
        self.baudrate, self.bytesize, self.parity, self.stopbits = baudrate, bytesize, parity, stopbits
        self.timeout = timeout
        self.write_timeout = kw.pop('writeTimeout', write_timeout)
        if kw:
            raise ValueError('unexpected keyword arguments: %r' % kw)
        self.rx, self.late, self.tx = [], [], b''
        if port is not None:
            self.open()

    @property
    def writeTimeout(self):
        return self.write_timeout

    @writeTimeout.setter
    def writeTimeout(self, v):
        self.write_timeout = v

    @property
    def is_open(self):
        return self.h is not None and self.h.open

    def isOpen(self):
        return self.is_open

    def open(self):
        a = world.choose('open', ctx=self.port)
        if a in ODD:
            raise ODD[a]()
        if a is not None or self.port not in world.ports:
            raise SerialException(2, 'could not open port %s' % self.port + MARKS)
        self.h = Handle(self.port, self.baudrate, self.parity, self.timeout)
        world.handles.append(self.h)

    def __del__(self):
        if self.h is not None:
            self.h.collected = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def _check(self):
        world.io()
        if not self.is_open:
            raise SerialException('Attempting to use a port that is not open')

    def close(self):
        world.io()
        a = world.choose('close', ctx=self.port)
        if a is not None:
            self.h.open = False
            if a in ODD:
                raise ODD[a]()
            raise SerialException('close failed' + MARKS)
        if self.h is not None:
            self.h.open = False

    def reset_input_buffer(self):
        self._check()
        a = world.choose('flush')
        if a in ODD:
            raise ODD[a]()
        if a is not None:
            raise SerialException('flush failed' + MARKS)
        self.rx = []

    flushInput = reset_input_buffer

    def reset_output_buffer(self):
        self._check()

    flushOutput = reset_output_buffer

    def flush(self):
        self._check()

    @property
    def in_waiting(self):
        self._check()
        return sum(len(p) for p in self.rx)

    def inWaiting(self):
        return self.in_waiting

    def write(self, data):
        self._check()
        data = bytes(data)
        a = world.choose('write')
        if a in ODD:
            raise ODD[a]()
        if a == 'error':
            raise SerialException('write failed' + MARKS)
        if a == 'timeout':
            raise SerialTimeoutException('Write timeout')
        if a == 'partial':
            self._deliver(data[:len(data) // 2])
            self.tx = b''         # the slave drops an incomplete frame after the silence
            raise SerialTimeoutException('Write timeout')
        if a is not None:
            raise HarnessError('write: %r' % (a,))
        self._deliver(data)
        return len(data)

    def _deliver(self, data):
        self.tx += data
        n = pdu_complete(self.tx[1:])
        if n is None:
            return
        if n == 0:
            world.malformed.append(('rtu', self.tx))
            self.tx = b''
            return
        if len(self.tx) < n + 3:
            return
        frame, self.tx = self.tx, b''
        p = frame[1:-2]
        if len(frame) != n + 3 or crc16(frame[:-2]) != frame[-2:] or \
                (p[0] == 16 and struct.unpack('>H', p[3:5])[0] * 2 != p[5]):
            world.malformed.append(('rtu', frame))
            return
        world.wire.append(('>', frame))
        pdu, kind, arg = world.serve(Request('rtu', frame[0], p, self.port), world.ports[self.port])
        if pdu is None or kind == 'lost':
            return
        reply = bytes([frame[0]]) + pdu
        reply += crc16(reply)
        self._reply(reply, kind, arg)

    def _reply(self, reply, kind, arg):
        if kind in (None, 'exc'):
            pass
        elif kind == 'raw':
            reply = bytes(arg)
        elif kind == 'pdu':
            reply = reply[:1] + bytes(arg)
            reply += crc16(reply)
        elif kind == 'unit':
            reply = bytes([arg]) + reply[1:-2]
            reply += crc16(reply)
        elif kind == 'map':
            reply = arg(reply)
        elif kind == 'trunc':
            reply = reply[:arg]
        elif kind == 'late':
            self.late.append(reply)
            return
        elif kind == 'trunc_late':        # the rest arrives when the client has given up waiting
            self._queue(reply[:arg])
            self.late.append(reply[arg:])
            return
        else:
            raise HarnessError('reply: %r' % (kind,))
        self._queue(reply)

    def _queue(self, reply):
        if not reply:
            return
        world.wire.append(('<', reply))
        pcs = world.plan.pieces(len(reply))
        if pcs is None:
            self.rx.append(reply)
        else:
            i = 0
            for n in pcs:
                self.rx.append(reply[i:i + n])
                i += n
            if i < len(reply):
                self.rx.append(reply[i:])

    def read(self, size=1):
        """At most one arrived piece (a gap longer than the timeout separates pieces); b'' is a timeout."""
        self._check()
        if self.tx:
            world.malformed.append(('rtu', self.tx))
            self.tx = b''
        a = world.choose('read')
        if a in ODD:
            raise ODD[a]()
        if a == 'error':
            raise SerialException('device reports readiness to read but returned no data')
        if a == 'timeout':
            return b''
        if a is not None:
            raise HarnessError('read: %r' % (a,))
        if not self.rx:
            if self.timeout is None:
                raise Runaway('waits for ever: serial read without timeout')
            world.clock += self.timeout
            for x in self.late:
                world.wire.append(('<', Late(x)))
            self.rx += self.late
            self.late = []
            return b''
        p = self.rx[0]
        out, rest = p[:size], p[size:]
        if rest:
            self.rx[0] = rest
        else:
            self.rx.pop(0)
        return out


def fake_sleep(t):
    world.io()
    world.clock += max(0.0, t)


EPOCH = 1600000000.0
wall = [0.0]                  # how far the clock on the wall was set since
asked = [0, 0.0]


def fake_time(start, unit=1):
    """A clock that moves only with the simulated world (and when it is asked again and again: somebody waits for it)."""
    def now():
        if asked[1] != world.clock:
            asked[:] = [0, world.clock]
        asked[0] += 1
        if asked[0] > 200:
            world.clock += 0.001
        t = start + world.clock + (wall[0] if start == EPOCH else 0.0)
        return t if unit == 1 else int(t * unit)
    return now


def install_clock():
    """For this process: time stands still unless something is waited for (or idle() is called)."""
    for name, start in (('time', EPOCH), ('monotonic', 5000.0), ('perf_counter', 100.0)):
        setattr(_time, name, fake_time(start))
        setattr(_time, name + '_ns', fake_time(start, 10 ** 9))


def install():
    _socket.socket = FakeSocket
    _socket.getaddrinfo = fake_getaddrinfo
    _serial.Serial = FakeSerial
    _time.sleep = fake_sleep
    install_clock()


install()
