"""World: the Python package over the real C library.

Real: py/embc (framer, buffer, pattern, list, ec, lib), py/bin/framer_qual.py, the C library built as the shared
library they load.  Simulated: the serial line and its faults, the polling loop, both clocks (wall clock with jumps,
monotonic clock), the applications, the library's heap, the serial module.
"""
import ctypes
import datetime
import gc
import heapq
import io
import logging
import os
import re
import sys
import time
import types
import zlib

CFG, APP, NET, SCHED, DATA, AUX = range(6)
MS = 1000000
SEC = 1000 * MS


def crc8(b):
    c = 0xff
    for v in b:
        c ^= v
        for _ in range(8):
            c = (c >> 1) ^ 0xE0 if c & 1 else c >> 1
    return c ^ 0xff


def frame_error(b):
    if len(b) < 13:
        return 'too short'
    if b[0] != 0xAA or b[-1] != 0xAA:
        return 'no start or end of frame'
    if crc8(b[:7]) != b[7]:
        return 'header crc'
    if b[4] > 240 or len(b) != b[4] + 13:
        return 'length'
    if zlib.crc32(b[:-5]) != int.from_bytes(b[-5:-1], 'little'):
        return 'frame crc'
    return None


class AppError(Exception):
    """What a simulated application throws."""


class Clock:
    """Stands in for the time module's clocks."""
    now = 0
    jump = 0
    base = 1600000000 * SEC
    mono = 1000 * SEC
    sleep_fn = None

    def install(self):
        time.time = lambda: (self.base + self.now + self.jump) / 1e9
        time.time_ns = lambda: self.base + self.now + self.jump
        for n in ('monotonic', 'perf_counter', 'process_time', 'thread_time'):
            setattr(time, n, lambda: (self.mono + self.now) / 1e9)
            setattr(time, n + '_ns', lambda: self.mono + self.now)
        time.sleep = lambda s: self.sleep_fn and self.sleep_fn(s)


class Heap:
    """The library's heap: every block guarded, filled, checked and accounted."""
    PAD = 32

    def __init__(self, run):
        self.run = run
        self.live = {}
        self.freed = []
        self.count = 0

    def alloc(self, size):
        raw = ctypes.create_string_buffer(size + 2 * self.PAD + 16)
        addr = (ctypes.addressof(raw) + self.PAD + 15) & ~15
        ctypes.memset(ctypes.addressof(raw), 0xA5, len(raw))
        self.live[addr] = (raw, size)
        self.count += 1
        return addr

    def intact(self, addr, raw, size):
        off = addr - ctypes.addressof(raw)
        b = raw.raw
        return b[:off].count(0xA5) == off and b[off + size:].count(0xA5) == len(b) - off - size

    def free(self, addr):
        if not addr:
            return
        x = self.live.pop(addr, None)
        if x is None:
            self.run.violate('heap-free', 'the library frees what it did not allocate, or twice')
        if not self.intact(addr, *x):
            self.run.violate('heap-overrun', 'a block of %d bytes was written beyond its end' % x[1])
        ctypes.memset(addr, 0xDD, x[1])
        self.freed.append((addr, x))

    def finish(self):
        for addr, (raw, size) in self.freed:
            if ctypes.string_at(addr, size).count(0xDD) != size:
                self.run.violate('heap-use-after-free', 'a freed block of %d bytes was written' % size)
        if self.live:
            self.run.violate('heap-leak', '%d blocks are never freed' % len(self.live))


class Msg:
    __slots__ = ('d', 'idx', 'kind', 'port', 'mid', 'pdef', 'payload', 't', 'done', 'status', 'delivered', 'answered', 'harm',
                 'tx', 'last', 'excused', 'snap', 'via', 'fid', 'acked')

    def __init__(self):
        self.done = self.answered = False
        self.status = None
        self.delivered = self.harm = self.tx = 0
        self.last = None
        self.excused = self.acked = False
        self.fid = None


class World:
    name = 'python'

    def __init__(self, package):
        self.clock = Clock()
        self.clock.install()
        logging.logThreads = logging.logMultiprocessing = logging.logProcesses = False
        sys.path.insert(0, package)
        import embc
        from embc.stream import framer as fr
        from embc.memory import buffer as bu
        from embc.collections import list as li
        self.embc, self.fr, self.bu, self.li = embc, fr, bu, li
        # the qualification tool, over a serial module of the simulator
        self.serial = types.ModuleType('serial')
        self.serial.Serial = lambda *a, **k: self.serial.factory(*a, **k)
        sys.modules['serial'] = self.serial
        import importlib.util
        spec = importlib.util.spec_from_file_location('framer_qual', os.path.join(package, 'bin', 'framer_qual.py'))
        self.qual = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(self.qual)
        self.dll = embc.lib.dll
        self.run_ = None
        self.heap = None
        self.log_fn = self.fatal_fn = None
        self.dll.embc_fatal.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_char_p]
        self.dll.embc_fatal.restype = None
        try:    # what the log macros of the library call
            self.log_printf = ctypes.CFUNCTYPE(None, ctypes.c_char_p, ctypes.c_char_p)(
                ctypes.c_void_p.in_dll(self.dll, 'embc_log_printf_').value)
        except (ValueError, TypeError):
            self.log_printf = None
        A = ctypes.CFUNCTYPE(ctypes.c_void_p, ctypes.c_size_t)
        F = ctypes.CFUNCTYPE(None, ctypes.c_void_p)
        self._a = A(lambda n: self.heap.alloc(n))
        self._f = F(lambda p: self.heap.free(p))
        self.dll.embc_allocator_set(self._a, self._f)
        world = self

        class H(logging.Handler):
            def emit(self, rec):
                if rec.levelno >= logging.CRITICAL and world.run_ is not None and world.fatal_fn:
                    world.fatal_fn(rec.getMessage())
                elif rec.levelno >= logging.CRITICAL and world.run_ is not None:
                    world.note('fatal', rec.getMessage())
                elif world.log_fn is not None:
                    world.log_fn(rec.getMessage())
        root = logging.getLogger()
        for h in list(root.handlers):
            root.removeHandler(h)
        root.addHandler(H())
        root.setLevel(logging.CRITICAL)
        sys.unraisablehook = self.unraisable
        self.dll.embc_error_code_name.restype = ctypes.c_char_p
        self.dll.embc_error_code_name.argtypes = [ctypes.c_int]

    def note(self, kind, msg):
        try:
            self.run_.violate(kind, msg)
        except Exception:
            pass

    def unraisable(self, u):
        if self.run_ is None or isinstance(u.exc_value, AppError) or self.run_.kind or self.fatal_fn:
            return
        self.note('callback-exception', '%s: %s' % (type(u.exc_value).__name__, u.exc_value))

    def run(self, r):
        self.run_ = r
        self.clock.now = 0
        self.clock.jump = 0
        self.clock.sleep_fn = None
        self.heap = Heap(r)
        out, sys.stdout = sys.stdout, io.StringIO()     # what the library and the tool print
        try:
            mode = r.pick(CFG, ('link', 'link', 'link', 'api', 'qual'))
            r.ev(mode)
            {'link': Link, 'api': Api, 'qual': Qual}[mode](self, r).run()
            gc.collect()
            r.check()
            self.heap.finish()
            r.check()
        finally:
            sys.stdout = out
            r.sim_ns = self.clock.now

    def cleanup(self):
        self.run_ = None
        gc.collect()


class Line:
    """A serial line of one direction: first in, first out, with faults."""

    def __init__(self, sim, d, sink):
        self.sim, self.d, self.sink = sim, d, sink
        self.free = 0           # when the line is idle again
        self.last = 0           # last arrival
        self.outage = False
        self.ack_harm = {}
        self.intact = {'data': 0, 'ack': 0}

    def put(self, frame, m, ack_key, harm_ok):
        s, r = self.sim, self.sim.r
        c = s.cfg
        start = max(self.free, s.now)
        dur = len(frame) * 10 * SEC // c['baud']
        self.free = start + dur
        copies = 1
        extra = 0
        b = frame
        if self.outage:
            r.fault('outage drop')
            return False
        if c['faults'] and s.faults_on and harm_ok:
            kind = r.draw(NET, c['faults'])
            n = m.harm if m else self.ack_harm.get(ack_key, 0)
            if kind == 1 and n < 2:
                self.hurt(m, ack_key)
                if r.draw(NET, 3) == 1:
                    r.fault('serial write fails')
                    r.ev('write fails')
                    raise AppError('serial write')
                r.fault('drop')
                r.ev('drop')
                return False
            if kind == 2 and c['corrupt'] and n < 2 and 0xAA not in b[1:-1]:
                k = r.draw(NET, len(b) - 1)
                x = 1 + r.draw(NET, 255)
                b = b[:k] + bytes([b[k] ^ x]) + b[k + 1:]
                if 0xAA not in b[1:-1]:
                    r.fault('corrupt')
                    self.hurt(m, ack_key)
                    r.ev('corrupt %d %d' % (k, x))
                    self.send(b, self.free + c['latency'], False, None)
                    return False
                b = frame
            if kind == 3 and c['dup']:
                r.fault('duplicate')
                copies = 2
            if kind == 4 and c['delay'] and n < 2:
                r.fault('delay')
                self.hurt(m, ack_key)
                extra = (1 + r.draw(NET, 50)) * MS
            if kind == 5 and c['corrupt']:
                r.fault('garbage')
                g = bytes(r.draw(NET, 16) for _ in range(1 + r.draw(NET, 12)))
                self.send(g, start + c['latency'], False, None)
        if not m:
            self.ack_harm.pop(ack_key, None)
        for _ in range(copies):
            self.send(b, self.free + c['latency'] + extra, True, 'data' if m else 'ack')
            self.free += dur if copies > 1 else 0
        return True

    def hurt(self, m, ack_key):
        if m:
            m.harm += 1
        else:
            self.ack_harm[ack_key] = self.ack_harm.get(ack_key, 0) + 1

    def send(self, b, t, intact, kind):
        s, r = self.sim, self.sim.r
        before = self.last
        t = max(t, self.last)
        self.last = t
        if intact:
            self.intact[kind] += 1
        if s.cfg['split'] and len(b) > 1 and r.chance(NET, 1, 2):
            k = 1 + r.draw(NET, len(b) - 1)
            lead = min(len(b) - k, 100) * 10 * SEC // s.cfg['baud']
            s.at(max(s.now, before, t - lead), lambda: self.sink(b[:k]))
            s.at(t, lambda: self.sink(b[k:]))
        else:
            s.at(t, lambda: self.sink(b))


class Events:
    """The event queue and the clocks."""

    def __init__(self, world, r):
        self.w, self.r = world, r
        self.q = []
        self.seq = 0
        self.now = 0

    def at(self, t, fn):
        self.seq += 1
        heapq.heappush(self.q, (max(t, self.now), self.seq, fn))

    def next(self, limit):
        """Run the next event up to the limit; False when there is none."""
        if not self.q or self.q[0][0] > limit:
            self.set(max(self.now, limit))
            return False
        t, _, fn = heapq.heappop(self.q)
        self.set(t)
        self.r.step()
        fn()
        self.r.check()
        return True

    def set(self, t):
        self.now = t
        self.w.clock.now = t

    def jump(self):
        r = self.r
        amount = r.pick(NET, (3600 * SEC, -3600 * SEC, 2 * SEC, -2 * SEC, 300 * MS, -300 * MS, 86400 * 365 * SEC, -86400 * 365 * SEC))
        self.w.clock.jump += amount
        r.fault('wall clock jump')
        r.ev('jump %d ms' % (amount // MS))


class Link(Events):
    """Two Framer objects and their applications."""

    def __init__(self, world, r):
        Events.__init__(self, world, r)
        cls = r.draw(CFG, 4)        # 0 clean, 1 loss, 2 loss and corruption, 3 outage
        self.cfg = c = {
            'cls': cls,
            'baud': r.pick(CFG, (1000000, 115200, 460800)),
            'latency': r.draw(CFG, 4) * r.draw(CFG, 4) * MS,
            'poll': (1 + r.draw(CFG, 20)) * MS,
            'stall': r.pick(CFG, (0, 0, 20, 50)) * MS,
            'faults': 6 + r.draw(CFG, 20) if cls in (1, 2) else 0,
            'corrupt': cls == 2, 'dup': r.chance(CFG, 1, 2), 'delay': r.chance(CFG, 1, 2),
            'split': r.chance(CFG, 1, 3),
            'chunk': r.draw(CFG, 4),
            'style': r.draw(CFG, 4),
            'jumps': r.chance(CFG, 1, 3),
            'ops': 2 + r.draw(CFG, 60),
            'gap': r.pick(CFG, (20, 1, 5, 100)) * MS,
            'raise': r.chance(CFG, 1, 6),
            'callback_send': r.chance(CFG, 1, 2),
            'resync': r.chance(CFG, 1, 4) and cls != 3,
            'first_resync': r.chance(CFG, 1, 2),
            'ports': r.draw(CFG, 3),
        }
        self.faults_on = True
        self.f = [world.fr.Framer(), world.fr.Framer()]
        self.inbox = [bytearray(), bytearray()]
        self.line = [Line(self, 0, lambda b: self.inbox[1].extend(b)), Line(self, 1, lambda b: self.inbox[0].extend(b))]
        self.msgs = []
        self.by_def = [{}, {}]
        self.next_def = [r.draw(DATA, 65536), r.draw(DATA, 65536)]
        self.idx = [0, 0]
        self.last_delivered = [-1, -1]
        self.mid = [0, 0]
        self.requests = [{}, {}]        # mid -> Msg of unanswered pings and status requests
        self.late = [{}, {}]
        self.req_count = [0, 0]
        self.wire_seen = [set(), set()]
        self.wire_tx = [0, 0]
        self.wire_retx = [0, 0]
        self.resyncs = [[], []]         # outstanding
        self.resync_count = [0, 0]
        self.outage_until = -1
        self.outages = 0
        self.deaf = [set(), set()]      # ports without callbacks
        self.in_cb = 0
        self.cb_budget = 20

    def start(self):
        r = self.r
        for n in (0, 1):
            self.f[n].hal_tx = (lambda n: lambda b: self.hal_tx(n, b))(n)
            for p in range(16):
                how = r.draw(CFG, 6) if self.cfg['ports'] == 2 and p else 0
                rx = self.rx_fn(n) if how != 4 else None
                td = self.done_fn(n) if how != 5 else None
                if how in (4, 5):
                    self.deaf[n].add((p, 'rx' if how == 4 else 'done'))
                if how != 3:
                    self.f[n].register_port(p, rx, td)
                else:
                    self.deaf[n].add((p, 'rx'))
                    self.deaf[n].add((p, 'done'))
        if self.cfg['first_resync']:
            for n in (0, 1):
                self.resync(n)
        for n in (0, 1):
            self.at((1 + r.draw(SCHED, 20)) * MS, lambda n=n: self.poll(n))

    # ---- application -----------------------------------------------------
    def payload(self):
        r = self.r
        st = self.cfg['style']
        n = r.pick(DATA, (1 + r.draw(DATA, 8), r.draw(DATA, 241), 240, 0, r.draw(DATA, 33)))
        if st == 0:
            return bytes((i * 7 + n) & 0x7f for i in range(n))
        if st == 1:
            return bytes(r.draw(DATA, 0xAA) for _ in range(n))
        if st == 2:
            return bytes([r.pick(DATA, (0, 0xAA, 0xFF, 0x55))]) * n
        return bytes(r.draw(DATA, 256) for _ in range(n))

    def load(self, n):
        """Messages and buffers which endpoint n may have to hold."""
        return self.idx[n] + self.resync_count[n] + self.req_count[1 - n] - self.f[n].status.tx_count

    def may_send(self, n):
        if self.load(n) >= (3 if self.cfg['first_resync'] else 2) or self.load(1 - n) >= 4:
            return False
        return not self.resyncs[n]

    def new_mid(self, n):
        self.mid[n] = (self.mid[n] + 1) & 0xff
        return self.mid[n]

    def send(self, n, kind):
        r, fr = self.r, self.w.fr
        if not self.may_send(n):
            return
        m = Msg()
        m.d, m.kind, m.t, m.via = n, kind, self.now, 0
        m.excused = self.now <= self.outage_until
        m.payload = self.payload()
        if kind == 'msg':
            m.port = 1 + r.draw(DATA, 15)
            m.mid = r.draw(DATA, 256)
            m.pdef = self.next_def[n]
            self.next_def[n] = (m.pdef + 1) & 0xffff
            self.by_def[n][m.pdef] = m
        else:
            if self.requests[n] or self.load(1 - n) >= 3:
                return
            m.port = 0
            m.mid = self.new_mid(n)
            if m.mid in (0, 2):
                m.mid = self.mid[n] = 3
            m.pdef = fr.Port0.PING_REQ if kind == 'ping' else fr.Port0.STATUS_REQ
            self.requests[n][m.mid] = m
            m.snap = self.status(1 - n)
            self.req_count[n] += 1
            if kind == 'status':
                m.payload = m.payload[:r.draw(DATA, 41)]
        m.idx = self.idx[n]
        self.idx[n] += 1
        self.msgs.append(m)
        if (m.port, 'done') in self.deaf[n]:
            m.done = False
        m.via = r.draw(APP, 3)
        r.ev('send %d %s port=%d mid=%d def=%d len=%d via=%d' % (n, kind, m.port, m.mid, m.pdef, len(m.payload), m.via))
        f = self.f[n]
        if m.via == 2:       # the functions below the class
            b = fr.alloc(f.framer)
            if m.payload:
                b[0].write(m.payload)
            fr.send(f.framer, m.port, m.mid, m.pdef, b)
        else:
            f.send(m.port, m.mid, m.pdef, m.payload)
        r.check()

    def resync(self, n):
        r = self.r
        if self.resyncs[n]:
            return
        self.r.ev('resync %d' % n)
        r.probe('resync')
        for m in self.msgs:
            if (not m.done and m.d == n) or (m.kind != 'msg' and not m.answered):
                m.excused = True
        self.resyncs[n].append(self.now)
        self.resync_count[n] += 1
        self.f[n].resync()
        r.check()

    def status(self, n):
        s = self.f[n].status
        return [getattr(s, k) for k in STATUS]

    def op(self):
        r = self.r
        n = r.draw(APP, 2)
        k = r.draw(APP, 12)
        if k < 8:
            self.send(n, 'msg')
        elif k < 10:
            self.send(n, 'ping')
        elif k < 11:
            self.send(n, 'status')
        elif self.cfg['resync']:
            self.resync(n)

    def rx_fn(self, n):
        return lambda port, mid, pdef, data: self.rx(n, port, mid, pdef, data)

    def done_fn(self, n):
        return lambda port, mid, pdef, status: self.tx_done(n, port, mid, pdef, status)

    def after(self, n):
        """What an application does inside a callback."""
        r = self.r
        if self.cfg['callback_send'] and self.cb_budget > 0 and self.faults_on and r.chance(APP, 1, 4):
            self.cb_budget -= 1
            r.probe('send inside a callback')
            self.send(n, 'msg')
        if self.cfg['raise'] and r.chance(APP, 1, 8):
            r.fault('application callback raises')
            raise AppError('application')

    def rx(self, n, port, mid, pdef, data):
        r, fr = self.r, self.w.fr
        if r.kind:
            return
        r.ev('rx %d port=%d mid=%d def=%d len=%d' % (n, port, mid, pdef, len(data)))
        if not isinstance(data, bytes):
            r.violate('rx-type', 'the payload is a %s' % type(data).__name__)
        if port == 0:
            m = self.requests[n].get(mid) or self.late[n].get(mid)    # late: failed or aborted, yet it arrived
            want = {'ping': fr.Port0.PING_RSP, 'status': fr.Port0.STATUS_RSP}
            if m is None or want[m.kind] != pdef:
                r.violate('rx-invented', 'endpoint %d receives a response which answers no request: mid=%d def=%d' % (n, mid, pdef))
            if m.kind == 'ping' and data != m.payload:
                r.violate('rx-payload', 'the ping response of endpoint %d differs from its request' % n)
            if m.kind == 'status':
                self.check_status_rsp(n, m, data)
            m.answered = True
            (self.requests[n] if mid in self.requests[n] else self.late[n]).pop(mid)
            return self.after(n)
        m = self.by_def[1 - n].get(pdef)
        if m is None:
            r.violate('rx-invented', 'endpoint %d receives a message which was not sent: port=%d mid=%d def=%d' % (n, port, mid, pdef))
        if (port, mid) != (m.port, m.mid):
            r.violate('rx-header', 'endpoint %d receives port=%d mid=%d, sent as port=%d mid=%d' % (n, port, mid, m.port, m.mid))
        if data != m.payload:
            r.violate('rx-payload', 'endpoint %d receives %d bytes, %d were sent, or others' % (n, len(data), len(m.payload)))
        if m.delivered:
            r.violate('rx-twice', 'endpoint %d receives message %d twice' % (n, m.idx))
        if m.idx < self.last_delivered[n]:
            r.violate('rx-order', 'endpoint %d receives message %d after message %d' % (n, m.idx, self.last_delivered[n]))
        if (port, 'rx') in self.deaf[n]:
            r.violate('rx-port', 'a callback was called for a port which has none')
        m.delivered = 1
        self.last_delivered[n] = m.idx
        self.after(n)

    def check_status_rsp(self, n, m, data):
        r, fr = self.r, self.w.fr
        size = ctypes.sizeof(fr.embc_framer_status_s)
        if len(data) != size:
            r.violate('status-size', 'a status response has %d bytes, the structure %d' % (len(data), size))
        s = fr.embc_framer_status_s.from_buffer_copy(data)
        now = self.status(1 - n)
        for k, lo, hi in zip(STATUS, m.snap, now):
            v = getattr(s, k)
            if not lo <= v <= hi:
                r.violate('status-value', 'the peer reports %s=%d, it had %d before the request and %d after' % (k, v, lo, hi))

    def tx_done(self, n, port, mid, pdef, status):
        r, fr = self.r, self.w.fr
        if r.kind:
            return
        r.ev('done %d port=%d mid=%d def=%d status=%d' % (n, port, mid, pdef, status))
        if port == 0 and pdef == fr.Port0.RESYNC:
            if not self.resyncs[n]:
                r.violate('done-invented', 'endpoint %d completes a resync nobody asked for' % n)
            self.resyncs[n].pop()
            if status and not self.outages and not any(self.resyncs[n]):
                r.violate('done-status', 'the resync of endpoint %d failed with %d' % (n, status))
            return
        if port == 0:
            ms = [m for m in self.msgs if m.d == n and m.port == 0 and m.mid == mid and m.pdef == pdef and not m.done]
            m = ms[0] if ms else None
        else:
            m = self.by_def[n].get(pdef)
        if m is None or m.port != port or m.mid != mid:
            r.violate('done-invented', 'endpoint %d completes a message which was not sent: port=%d mid=%d def=%d' % (n, port, mid, pdef))
        if m.done:
            r.violate('done-twice', 'endpoint %d completes message %d twice' % (n, m.idx))
        if (port, 'done') in self.deaf[n]:
            r.violate('done-port', 'a callback was called for a port which has none')
        self.complete(m, status)
        self.after(n)

    def complete(self, m, status):
        r, ec = self.r, self.w.embc.ec
        m.done = True
        m.status = status
        if status:
            name = ec.num_to_name.get(status)
            if not m.excused:
                r.violate('done-status', 'message %d of endpoint %d failed with %s on a line which was never down' % (m.idx, m.d, name))
            if name not in ('TIMED_OUT', 'ABORTED'):
                r.violate('done-status', 'message %d of endpoint %d failed with %s' % (m.idx, m.d, name))
            if name == 'TIMED_OUT' and m.tx != self.w.fr.MAX_RETRIES + 1:
                r.violate('done-retries', 'message %d timed out after %d transmissions' % (m.idx, m.tx))
            if m.kind != 'msg':
                self.late[m.d][m.mid] = self.requests[m.d].pop(m.mid, None) or self.late[m.d].get(m.mid)
            r.probe('send failed: %s' % name)

    # ---- wire --------------------------------------------------------------
    def hal_tx(self, n, b):
        r = self.r
        if r.kind:
            return
        if not isinstance(b, bytes):
            r.violate('tx-type', 'hal_tx receives a %s' % type(b).__name__)
        e = frame_error(b)
        if e:
            r.violate('tx-frame', 'endpoint %d sends an invalid frame (%s): %s' % (n, e, b.hex()))
        ack = bool(b[1] & 0x80)
        r.ev('tx %d %s' % (n, b[:8].hex()))
        m = None
        if not ack:
            self.wire_tx[n] += 1
            key = b
            pdef = b[5] | b[6] << 8
            if b[2]:
                m = self.by_def[n].get(pdef)
                if m is None or (m.port, m.mid, m.payload) != (b[2], b[3], b[8:-5]):
                    r.violate('tx-content', 'endpoint %d sends a frame of no message: %s' % (n, b.hex()))
            else:
                for x in self.msgs:
                    if x.d == n and not x.done and x.port == 0 and x.mid == b[3] and x.pdef == pdef:
                        m = x
                if m is None:
                    m = self.internal(n, b)
            if key in self.wire_seen[n] and m.tx:
                self.wire_retx[n] += 1
                r.probe('retransmission')
            self.wire_seen[n].add(key)
            m.tx += 1
            m.last = self.now
            m.fid = b[1] & 15
        else:
            for x in self.msgs:     # what this ACK may confirm: then its sender need not send it again
                if x.d != n and not x.done and x.fid is not None and ((b[1] - x.fid) & 15) < 4 and b[8] == 0:
                    x.acked = True
        return self.line[n].put(b, m, (b[1], b[3]), True)

    def internal(self, n, b):
        """Record of a response or a resync."""
        key = (n, b)
        m = self.int_.get(key)
        if m is None:
            m = self.int_[key] = Msg()
            m.d, m.kind, m.idx = n, 'internal', -1
        return m

    int_ = None

    def poll(self, n):
        r, c = self.r, self.cfg
        f = self.f[n]
        b = bytes(self.inbox[n])
        self.inbox[n].clear()
        while b:
            if c['chunk'] == 0:
                k = len(b)
            elif c['chunk'] == 1:
                k = 1
            else:
                k = 1 + r.draw(SCHED, min(len(b), 300))
            piece, b = b[:k], b[k:]
            if c['chunk'] == 3 and len(piece) < 4:
                for v in piece:
                    self.w.fr.hal_rx_byte(f.framer, v)
            else:
                f.hal_rx(piece)
            r.check()
        f.process()
        r.check()
        self.overdue(n)
        dt = c['poll']
        if c['stall'] and self.faults_on and r.chance(SCHED, 1, 16):
            r.fault('stalled poll')
            dt += r.draw(SCHED, c['stall'])
        if c['jumps'] and self.faults_on and r.chance(SCHED, 1, 30):
            self.jump()
        self.at(self.now + dt, lambda: self.poll(n))
        r.cover(len(self.inbox[n]) > 0, self.load(0), self.load(1), f.timeout is None, c['cls'], len(self.requests[n]), len(self.resyncs[n]))

    def overdue(self, n):
        """Every unconfirmed message which is on the wire is sent again in time."""
        limit = 250 * MS + 2 * self.cfg['poll'] + self.cfg['stall'] + 30 * MS
        for m in self.msgs:
            if m.d == n and not m.done and m.last is not None and self.now - m.last > limit and m.harm and not m.delivered and not m.acked and not m.excused:
                self.r.violate('retransmit-late', 'message %d of endpoint %d was lost and not sent again for %d ms' % (m.idx, n, (self.now - m.last) // MS))

    # ---- the run -------------------------------------------------------------
    def busy(self):
        for m in self.msgs:
            if (m.port, 'done') in self.deaf[m.d]:
                if (m.port, 'rx') not in self.deaf[1 - m.d] and not m.delivered and not m.excused:
                    return True
                continue
            if not m.done:
                return True
            if m.status == 0 and m.kind == 'msg' and not m.delivered and (m.port, 'rx') not in self.deaf[1 - m.d]:
                return True
            if m.kind != 'msg' and not m.answered and not m.excused:
                return True
        return bool(self.resyncs[0] or self.resyncs[1])

    def run(self):
        r, c = self.r, self.cfg
        self.int_ = {}
        self.start()
        while self.busy():
            if not self.next(self.now + SEC):
                continue
            if self.now > 8 * SEC:
                r.violate('stuck', 'the first resync does not complete')
        outage_at = r.draw(CFG, c['ops']) if c['cls'] == 3 else -1
        for i in range(c['ops']):
            if i == outage_at:
                self.outage()
            self.op_deaf()
            self.op()
            r.check()
            t = self.now + r.draw(SCHED, c['gap'])
            while self.next(t):
                pass
        self.faults_on = False
        r.ev('faults end')
        end = max(self.now, self.outage_until) + 9 * SEC
        while self.busy() and self.now < end:
            self.next(end)
            self.op_deaf()
        if self.busy():
            left = [m for m in self.msgs if not m.done]
            r.violate('stuck', '%d messages do not complete within 9 s after the faults ended' % len(left))
        # nothing more happens
        t = self.now + 2 * SEC
        while self.next(t):
            pass
        self.final()

    def op_deaf(self):
        """Messages whose sender has no tx_done callback complete unseen."""
        for m in self.msgs:
            if not m.done and (m.port, 'done') in self.deaf[m.d]:
                if m.tx and m.last is not None and self.now - m.last > 400 * MS:
                    m.done = True
                    m.status = -1

    def outage(self):
        r = self.r
        self.outages += 1
        d = r.draw(NET, 3)
        length = (1 + r.draw(NET, 60)) * 100 * MS
        self.outage_until = self.now + length + SEC
        r.ev('outage %d %d ms' % (d, length // MS))
        r.fault('outage')
        for m in self.msgs:
            if not m.done or (m.kind != 'msg' and not m.answered):
                m.excused = True
        for x in (0, 1):
            if d != 1 - x:
                self.line[x].outage = True

        def over():
            self.line[0].outage = self.line[1].outage = False
            r.ev('outage over')
        self.at(self.now + length, over)

    def final(self):
        r, c = self.r, self.cfg
        for n in (0, 1):
            s = dict(zip(STATUS, self.status(n)))
            r.ev('status %d %s' % (n, s))
            if c['raise'] or self.outages:
                continue
            exact = not c['corrupt']
            if exact and (s['rx_mic_error'] or s['rx_synchronization_error']):
                r.violate('status-errors', 'errors are reported on a line which corrupts nothing: %s' % s)
            if max(self.resync_count) <= 1:
                if s['tx_retransmit_count'] != self.wire_retx[n]:
                    r.violate('status-count', 'tx_retransmit_count=%d after %d retransmissions' % (s['tx_retransmit_count'], self.wire_retx[n]))
                if not self.resync_count[n] and s['tx_count'] != self.wire_tx[n] - self.wire_retx[n]:
                    r.violate('status-count', 'tx_count=%d after %d messages' % (s['tx_count'], self.wire_tx[n] - self.wire_retx[n]))
            peer = self.line[1 - n].intact
            if exact and s['rx_count'] != peer['data'] + peer['ack']:
                r.violate('status-count', 'rx_count=%d after %d intact frames' % (s['rx_count'], peer['data'] + peer['ack']))
            if exact and s['rx_ack_count'] != peer['ack']:
                r.violate('status-count', 'rx_ack_count=%d after %d acknowledgements' % (s['rx_ack_count'], peer['ack']))
        r.nontrivial = any(m.delivered for m in self.msgs)
        for f in self.f:
            f.hal_tx = None
            f._keep = None
        self.f = []
        self.q = []
        self.line = []


STATUS = ('version', 'rx_count', 'rx_data_count', 'rx_ack_count', 'rx_deduplicate_count', 'rx_synchronization_error',
          'rx_mic_error', 'rx_frame_id_error', 'tx_count', 'tx_retransmit_count')


class Api:
    """The wrapper modules: buffers, pattern, error codes, list; several owners, any order of calls."""

    def __init__(self, world, r):
        self.w, self.r = world, r
        self.bu = world.bu

    def run(self):
        r = self.r
        self.ec()
        self.list()
        self.lib()
        n = 4 + r.draw(CFG, 60)
        self.buffers(n)
        self.pattern(n)
        r.nontrivial = True

    def expect(self, kind, what, got, want):
        if got != want or type(got) is not type(want):
            self.r.violate(kind, '%s is %r, expected %r' % (what, got, want))

    def ec(self):
        r, ec = self.r, self.w.embc.ec
        n = r.draw(AUX, 64)
        c = self.w.dll.embc_error_code_name(n).decode()
        if n in ec.num_to_name:
            self.expect('ec', 'the name of error %d' % n, ec.num_to_name[n], c)
            self.expect('ec', 'the number of error ' + c, ec.name_to_num.get(c), n)
            self.expect('ec', 'ec.' + c, getattr(ec, c, None), n)
        elif c in ec.name_to_num:
            r.violate('ec', 'error %d is %s for the library and nothing for Python' % (n, c))

    def lib(self):
        r, w = self.r, self.w
        n = r.draw(AUX, 8)
        if n == 1:       # a fatal error of the library
            seen = []
            w.fatal_fn = seen.append
            name, line, msg = r.pick(AUX, (b'src/x.c', b'y.c')), r.draw(AUX, 10000), b'it broke %d' % r.draw(AUX, 100)
            w.dll.embc_fatal(name, line, msg)
            w.fatal_fn = None
            text = ' '.join(seen)
            if len(seen) != 1 or name.decode() not in text or str(line) not in text or msg.decode() not in text:
                r.violate('lib-fatal', 'a fatal error (%s %d %s) is logged as %r' % (name, line, msg, seen))
        elif n < 5 and w.log_printf:
            text = r.pick(DATA, ('', 'line\n', 'a' * r.draw(DATA, 9000), '\u00b5m 100% \u20ac\n', 'tab\t"quoted"\r\n'))
            at = len(sys.stdout.getvalue())
            w.log_printf(b'%s', ctypes.c_char_p(text.encode()))
            self.expect('lib-print', 'the printed text', sys.stdout.getvalue()[at:], text[:8191])
        b = w.embc.lib.alloc(1 + n)
        if ctypes.string_at(b, 1 + n) != bytes(1 + n):
            r.violate('lib-alloc', 'lib.alloc returns memory which is not cleared')
        w.embc.lib.free(b)
        w.embc.lib.free(None)

    def list(self):
        li = self.w.li
        items = [li.new() for _ in range(self.r.draw(AUX, 3))]
        for x in items:
            if not isinstance(x, li.embc_list_s):
                self.r.violate('list', 'list.new() returns %r' % (x,))
            if ctypes.addressof(x.next.contents) != ctypes.addressof(x) or ctypes.addressof(x.prev.contents) != ctypes.addressof(x):
                self.r.violate('list', 'a new list item does not point to itself')

    # ---- buffers ---------------------------------------------------------
    def verify(self, b):
        p = b['p']
        self.expect('buffer', 'capacity', p.capacity, b['cap'])
        self.expect('buffer', 'cursor', p.cursor, b['cur'])
        self.expect('buffer', 'length', p.length, len(b['data']))
        self.expect('buffer', 'reserve', p.reserve, b['res'])
        self.expect('buffer', 'write_remaining', p.write_remaining, b['cap'] - b['cur'] - b['res'])
        self.expect('buffer', 'the data', p.read_all(), bytes(b['data']))
        self.expect('buffer', 'the unread data', p.read_remaining(), bytes(b['data'][b['cur']:]))

    def payload(self, n):
        r = self.r
        st = r.draw(DATA, 3)
        if st == 0:
            return bytes((i + n) & 0xff for i in range(n))
        if st == 1:
            return bytes([r.pick(DATA, (0, 0xff, 0x80, 0x41))]) * n
        return bytes(r.draw(DATA, 256) for _ in range(n))

    def size(self, limit):
        return self.r.pick(DATA, (self.r.draw(DATA, min(limit, 8) + 1), self.r.draw(DATA, limit + 1), limit, 0))

    def put(self, b, v):
        d, c = b['data'], b['cur']
        d[c:c + len(v)] = v
        b['cur'] += len(v)

    INTS = (('u8', 1, 'little'), ('u16_le', 2, 'little'), ('u32_le', 4, 'little'), ('u64_le', 8, 'little'),
            ('u16_be', 2, 'big'), ('u32_be', 4, 'big'), ('u64_be', 8, 'big'))

    def buffers(self, ops):
        r, bu = self.r, self.bu
        classes = 1 + r.draw(CFG, 5)
        counts = [1 + r.draw(CFG, 6) for _ in range(classes)]
        sizes = (ctypes.c_size_t * classes)(*counts)
        a = bu.initialize(sizes, classes)
        r.ev('allocator %s' % counts)
        live = []
        out = [0] * classes

        def alloc(size):
            k = 0
            while 32 << k < size:
                k += 1
            if k >= classes or out[k] >= counts[k]:
                return None
            ptr = bu.alloc(a, size)
            r.check()
            b = {'ptr': ptr, 'p': ptr.contents, 'cap': 32 << k, 'cur': 0, 'res': 0, 'data': bytearray(), 'k': k,
                 'addr': ctypes.addressof(ptr.contents)}
            if b['addr'] in [x['addr'] for x in live]:
                r.violate('buffer-twice', 'a buffer which is in use is allocated again')
            out[k] += 1
            live.append(b)
            self.verify(b)
            return b

        def free(b):
            live.remove(b)
            out[b['k']] -= 1
            how = r.draw(APP, 3)
            if how == 0:
                bu.free(b['ptr'])
            elif how == 1:
                bu.free(b['p'])
            else:
                b['p'].free()
            r.check()

        for _ in range(ops):
            r.step()
            op = r.draw(APP, 18)
            if op < 2 or not live:
                alloc(1 + r.draw(DATA, 32 << r.draw(DATA, classes)))
                r.ev('alloc %d' % len(live))
                continue
            b = r.pick(APP, live)
            p, ptr, d = b['p'], b['ptr'], b['data']
            room = b['cap'] - b['cur'] - b['res']
            r.ev('op %d cursor %d length %d room %d' % (op, b['cur'], len(d), room))
            if op == 2:
                free(b)
                continue
            if op in (3, 4):
                v = self.payload(self.size(max(0, room)))
                if r.draw(APP, 2):
                    p.write(r.pick(DATA, (bytes, bytearray, memoryview))(v))
                else:
                    bu.write(ptr, v, len(v))
                self.put(b, v)
            elif op in (5, 6):
                name, n, order = r.pick(APP, self.INTS)
                if room >= n:
                    x = r.pick(DATA, (1, (1 << 8 * n) - 1, 0x0102030405060708, 1 << (8 * n - 1), r.draw(DATA, 1 << 32) * 0x9E3779B1)) & ((1 << 8 * n) - 1)
                    getattr(bu, 'write_' + name)(ptr, x)
                    self.put(b, x.to_bytes(n, order))
            elif op in (7, 8):
                name, n, order = r.pick(APP, self.INTS)
                if len(d) - b['cur'] >= n:
                    x = getattr(bu, 'read_' + name)(ptr)
                    self.expect('buffer', 'read_' + name, x, int.from_bytes(d[b['cur']:b['cur'] + n], order))
                    b['cur'] += n
            elif op == 9:
                n = self.size(len(d) - b['cur'])
                t = ctypes.create_string_buffer(b'Z' * (n + 1), n + 1)
                bu.read(ptr, t, n)
                self.expect('buffer', 'read', t.raw, bytes(d[b['cur']:b['cur'] + n]) + b'Z')
                b['cur'] += n
            elif op == 10:
                if r.chance(DATA, 1, 8):    # outside of the data: refused
                    bad = r.pick(DATA, (len(d) + 1, -1, b['cap'] + 1, len(d) + 65536))
                    try:
                        p.cursor_set(bad)
                    except (AssertionError, ValueError, IndexError):
                        pass
                    else:
                        r.violate('buffer', 'cursor_set(%d) is accepted with %d bytes of data' % (bad, len(d)))
                    continue
                b['cur'] = r.draw(DATA, len(d) + 1)
                p.cursor_set(b['cur'])
            elif op == 11:
                p.reset()
                d.clear()
                b['cur'] = 0
            elif op == 12 and d:
                lo, hi = r.draw(DATA, len(d)), r.draw(DATA, len(d) + 1)
                if r.draw(APP, 2):
                    p.erase(lo, hi)
                else:
                    bu.erase(ptr, lo, hi)
                if hi > lo:
                    del d[lo:hi]
                    if b['cur'] >= hi:
                        b['cur'] -= hi - lo
                    elif b['cur'] > lo:
                        b['cur'] = lo
            elif op == 13:
                o = r.pick(APP, live)
                if o is not b and room > 0:
                    n = self.size(min(room, len(o['data']) - o['cur']))
                    bu.copy(ptr, o['ptr'], n)
                    self.put(b, bytes(o['data'][o['cur']:o['cur'] + n]))
            elif op == 14 and room >= 0:
                v = self.payload(self.size(room)).replace(b'\0', b'.')
                bu.write_str(ptr, v)
                self.put(b, v)
            elif op == 15 and room >= 0:
                v = self.payload(self.size(room + 8)).replace(b'\0', b'.')
                x = bu.write_str_truncate(ptr, v)
                if bool(x) != (len(v) <= room):
                    r.violate('buffer', 'write_str_truncate returns %r for %d bytes into %d' % (x, len(v), room))
                self.put(b, v[:room])
                if len(v) > room:
                    r.probe('string truncated')
            elif op == 16:
                b['res'] = r.draw(DATA, min(9, b['cap'] - b['cur'] + 1))
                p.reserve = b['res']
            elif op == 17 and room >= 0:
                b['cur'] = r.draw(DATA, len(d) + 1)
                p.cursor = b['cur']
            r.check()
            for x in live:
                self.verify(x)
            r.cover('buffer', tuple(out), op)
        while live and r.draw(APP, 8):
            free(r.pick(APP, live))
        # conservation: what is out can be counted, all the rest can be had
        for x in list(live):
            free(x)
        for k in range(classes):
            for _ in range(counts[k]):
                if alloc(32 << k) is None:
                    r.violate('buffer-lost', 'a buffer is lost')
        for x in list(live):
            self.verify(x)
            free(x)
        bu.finalize(a)
        r.check()

    # ---- pattern ---------------------------------------------------------
    PERIOD = 4325376

    @staticmethod
    def word(pos):
        n = (pos % Api.PERIOD) // 2
        if pos & 1:
            c = n & 0xffff
            return ((~c & 0xffff) << 16) | c
        k = n % 33
        return 1 << (k - 1) if k else 0

    def pattern(self, ops):
        r, embc = self.r, self.w.embc
        tx, rx, one = embc.PatternTx(), embc.PatternRx(), embc.PatternRx()
        pos = fed = missing = faults = 0
        for _ in range(ops // 2):
            r.step()
            n = 1 + r.draw(SCHED, 24)
            if r.chance(SCHED, 1, 500):
                n = 16384 + r.draw(SCHED, 3000)
                r.probe('more than 64 KiB of pattern')
            if r.draw(SCHED, 2):
                words = [tx.next_u32() for _ in range(n)]
            else:
                b = embc.allocate_pattern_buffer(n)
                self.expect('pattern', 'the length of a pattern buffer', len(b), n)
                tx.next_buffer(b)
                words = list(b)
            want = [self.word(pos + i) for i in range(n)]
            if words != want:
                k = [i for i in range(n) if words[i] != want[i]][0]
                r.violate('pattern', 'word %d of the pattern is %08x, expected %08x' % (pos + k, words[k], want[k]))
            pos += n
            if fed >= 5 and n >= 12 and r.chance(NET, 1, 3):    # a loss between two undisturbed stretches
                k = 1 + r.draw(NET, n - 10)
                r.fault('words dropped')
                missing += k
                faults += 1
                words = words[k:]
            left = words
            while left:
                k = 1 + r.draw(SCHED, len(left)) if len(left) < 16384 or r.draw(SCHED, 2) else len(left)
                part, left = left[:k], left[k:]
                how = r.draw(APP, 4)
                r.ev('feed %d as %d' % (k, how))
                if how == 0:
                    for x in part:
                        rx.next_u32(x)
                elif how == 1:
                    rx.next_buffer(b''.join(x.to_bytes(4, 'little') for x in part))
                elif how == 2:
                    rx.next_buffer(part)
                else:
                    rx.next_buffer((ctypes.c_uint32 * k)(*part))
                for x in part:
                    one.next_u32(x)
                fed += k
                if r.chance(DATA, 1, 40):   # no whole words: refused
                    try:
                        rx.next_buffer(bytes(4 * r.draw(DATA, 3) + 1 + r.draw(DATA, 3)))
                    except (AssertionError, ValueError):
                        pass
                    else:
                        r.violate('pattern', 'a part of a word is accepted')
                self.expect('pattern', 'receive_count', rx.receive_count, fed)
                for f in ('receive_count', 'missing_count', 'error_count', 'resync_count'):
                    self.expect('pattern', f, getattr(rx, f), getattr(one, f))
            if fed >= 5:
                self.expect('pattern', 'missing_count', rx.missing_count, missing)
                if not faults and rx.error_count:
                    r.violate('pattern', '%d errors are reported on an undisturbed channel' % rx.error_count)
                if faults and not rx.error_count:
                    r.violate('pattern', 'lost words are not reported')


class Rec:
    """A frame on the wire, for the budget of faults."""

    def __init__(self):
        self.harm = 0


class Qual(Events):
    """The qualification tool, over a simulated serial port, and a device which answers."""

    def __init__(self, world, r):
        Events.__init__(self, world, r)
        cls = r.draw(CFG, 4)    # 0 clean, 1 loss, 2 loss and corruption, 3 outage
        self.cfg = {
            'cls': cls,
            'baud': r.pick(CFG, (1000000, 115200, 460800)),
            'latency': r.draw(CFG, 4) * MS,
            'faults': 6 + r.draw(CFG, 20) if cls in (1, 2) else 0,
            'corrupt': cls == 2, 'dup': r.chance(CFG, 1, 2), 'delay': r.chance(CFG, 1, 2),
            'split': False,
            'poll': (1 + r.draw(CFG, 8)) * MS,
            'jumps': r.chance(CFG, 1, 3),
        }
        self.faults_on = True
        self.count = r.pick(CFG, (1 + r.draw(CFG, 12), 1 + r.draw(CFG, 4), 1 + r.draw(CFG, 12), -1, 0))
        if cls < 3 and r.chance(CFG, 1, 100):
            self.count = 257 + r.draw(CFG, 8)       # message ids begin again
            self.cfg['baud'] = 1000000
        self.rec = {}
        self.pings = []         # payloads of the requests, in order of their first transmission
        self.seen = set()
        self.answers = 0
        self.frames = 0         # from the log of the tool
        self.errors = (0, 0, 0)
        self.reports = 0
        self.inbox = [bytearray(), bytearray()]
        self.is_open = False
        self.line = [Line(self, 0, lambda b: self.inbox[1].extend(b)), Line(self, 1, lambda b: self.inbox[0].extend(b))]
        self.far = world.fr.Framer()
        self.far.hal_tx = lambda b: self.tx(1, b)
        for p in range(16):
            self.far.register_port(p, lambda *a: None, lambda *a: None)

    # what the tool sees of the serial module
    class Port:
        in_waiting = 0

        def __init__(self, sim, port=None, baudrate=9600, timeout=None, **k):
            self.sim, self.port, self.baudrate, self.timeout = sim, port, baudrate, timeout
            self.is_open = False

        def open(self):
            self.is_open = True

        def close(self):
            self.is_open = False

        def write(self, b):
            if not self.is_open:
                self.sim.r.violate('serial', 'the tool writes to a closed port')
            self.sim.tx(0, bytes(b))
            return len(b)

        def read(self, size=1):
            return self.sim.read(size, self.timeout)

    def read(self, size, timeout):
        box = self.inbox[0]
        end = self.now + int((timeout or 0.002) * SEC)
        while not box and self.next(end):
            pass
        b = bytes(box[:size])
        del box[:size]
        if b:
            self.set(self.now + 1000)
        return b

    def tx(self, n, b):
        r = self.r
        if r.kind:
            return
        e = frame_error(b)
        if e:
            r.violate('tx-frame', 'endpoint %d sends an invalid frame (%s): %s' % (n, e, b.hex()))
        r.ev('tx %d %s' % (n, b[:8].hex()))
        m = None
        if not b[1] & 0x80:
            m = self.rec.setdefault((n, b), Rec())
            pdef = b[5] | b[6] << 8
            if n == 0 and b[2] == 0 and pdef == self.w.fr.Port0.PING_REQ and b not in self.seen:
                self.seen.add(b)
                self.ping(b[3], b[8:-5])
        self.line[n].put(b, m, (b[1], b[3]), True)

    def ping(self, mid, payload):
        r = self.r
        k = len(self.pings)
        if mid != k & 0xff:
            r.violate('ping-id', 'ping %d has message id %d' % (k, mid))
        words = len(payload) // 4
        for i in range(0, words):
            x = int.from_bytes(payload[4 * i:4 * i + 4], 'little')
            if x != Api.word(k * words + i):
                r.violate('ping-payload', 'word %d of ping %d is %08x, which is not the pattern' % (i, k, x))
        self.pings.append(payload)
        if self.count >= 0 and len(self.pings) > self.count:
            r.violate('ping-count', 'ping %d of %d is sent' % (len(self.pings), self.count))

    def poll(self):
        b = bytes(self.inbox[1])
        self.inbox[1].clear()
        if b:
            self.far.hal_rx(b)
        self.r.check()
        self.far.process()
        self.r.check()
        if self.cfg['jumps'] and self.faults_on and self.r.chance(SCHED, 1, 40):
            self.jump()
        self.at(self.now + self.cfg['poll'], self.poll)

    def log(self, text):
        m = re.match(r'(-?\d+) Bps in (\d+) frames: total errors:? tx=(\d+), rx_missing=(\d+), timeout=(\d+)', text)
        if m:
            self.reports += 1
            self.frames += int(m.group(2))
            self.errors = tuple(int(v) for v in m.groups()[2:])
            self.r.ev('report %d frames %s' % (self.frames, self.errors))

    def run(self):
        r, c, w = self.r, self.cfg, self.w
        w.serial.factory = lambda *a, **k: Qual.Port(self, *a, **k)
        w.log_fn = self.log
        logging.getLogger().setLevel(logging.INFO)
        try:
            self.go()
        finally:
            w.log_fn = None
            logging.getLogger().setLevel(logging.CRITICAL)
            self.far.hal_tx = None
            self.far = self.tool = None
            w.serial.factory = None
            self.q = []
            self.line = []

    def loop(self, end, until=None):
        while self.now < end and not (until and until()):
            self.r.step()
            self.tool.process()
            self.r.check()

    def go(self):
        r, c = self.r, self.cfg
        self.at(self.cfg['poll'], self.poll)
        self.tool = t = self.w.qual.MasterFramer('SIM', c['baud'])
        t.open()
        if self.count:
            t.start_ping(self.count)
        r.check()
        total = self.count if self.count > 0 else 6
        if total > 256:
            r.probe('more than 256 pings')
        if c['cls'] == 3:
            self.loop(self.now + (1 + r.draw(NET, 200)) * MS)
            length = (1 + r.draw(NET, 60)) * 100 * MS
            r.fault('outage')
            r.ev('outage %d ms' % (length // MS))
            d = r.draw(NET, 3)
            for x in (0, 1):
                self.line[x].outage = d != 1 - x
            self.loop(self.now + length)
            self.line[0].outage = self.line[1].outage = False
            r.ev('outage over')

        def done():
            return self.count and self.frames + sum(self.errors) >= total

        self.loop(self.now + total * 400 * MS, done)
        self.faults_on = False
        r.ev('faults end')
        if self.count >= 0:
            self.loop(self.now + 16 * SEC, done)
            self.loop(self.now + 1200 * MS)       # the last report
        t.close()
        if self.count == 0:
            if self.pings:
                r.violate('ping-count', 'a ping is sent without being asked for')
            return
        r.nontrivial = self.frames > 0
        if not self.reports:
            return      # nothing is known about its results
        if self.count < 0 and self.frames + sum(self.errors) > len(self.pings):
            r.violate('ping-account', 'the tool reports %d pings completed and errors %s after %d pings' % (self.frames, self.errors, len(self.pings)))
        if self.count > 0 and (len(self.pings) != self.count or self.frames + sum(self.errors) != self.count):
            r.violate('ping-account', 'the tool reports %d pings completed and errors %s of %d, %d were sent' % (self.frames, self.errors, self.count, len(self.pings)))
        if c['cls'] != 3 and any(self.errors):
            r.violate('ping-errors', 'the tool reports tx, missing and timeout errors %s on a link which is never down' % (self.errors,))
        r.cover('qual', c['cls'], self.count, self.errors)
