#!/usr/bin/env python3
"""Simulator core for the worlds which run Python code of the repository.

The same command line, replay files and result as the C++ core (dst.cpp):
seeded streams of choices (0 is always the simplest), forked workers, one seed is one execution,
every violation is reproduced twice in fresh processes, minimised and replayed before it is reported.
"""
import gc
import hashlib
import importlib
import json
import mmap
import os
import pickle
import re
import resource
import select
import signal
import struct
import subprocess
import sys
import tempfile
import time as _time

STREAMS = ('CFG', 'APP', 'NET', 'SCHED', 'DATA', 'AUX')
M64 = (1 << 64) - 1
MAXC = 1 << 15           # choices recorded per stream
_now = _time.monotonic   # the real clock, before a world replaces it


class Violation(Exception):
    pass


class RunEnd(Exception):
    pass


def mix(x):
    x = (x + 0x9E3779B97F4A7C15) & M64
    x = ((x ^ (x >> 30)) * 0xBF58476D1CE4E5B9) & M64
    x = ((x ^ (x >> 27)) * 0x94D049BB133111EB) & M64
    return x ^ (x >> 31)


class Run:
    """One execution: its choices, its trace and what it found."""

    def __init__(self, seed, run, given=None, record=None):
        self.state = [mix(mix(mix(seed) ^ run) ^ (i + 1)) for i in range(len(STREAMS))]
        self.given = given
        self.pos = [0] * len(STREAMS)
        self.record = record
        self.trace = []
        self.h = hashlib.blake2b(digest_size=8)
        self.keep_trace = False
        self.kind = ''
        self.msg = ''
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.nontrivial = False
        self.steps = 0
        self.events = 0
        self.sim_ns = 0

    # choices
    def draw(self, stream, n):
        """A choice in [0, n)."""
        p = self.pos[stream]
        self.pos[stream] = p + 1
        if self.given is not None:
            c = self.given[stream]
            v = c[p] if p < len(c) else 0
            v = v % n if n > 0 else 0
        else:
            s = self.state[stream] = (self.state[stream] + 0x9E3779B97F4A7C15) & M64
            s = ((s ^ (s >> 30)) * 0xBF58476D1CE4E5B9) & M64
            s = ((s ^ (s >> 27)) * 0x94D049BB133111EB) & M64
            v = ((s ^ (s >> 31)) >> 8) % n if n > 0 else 0
        if self.record is not None and p < MAXC:
            off = (stream * (MAXC + 1)) * 4
            struct.pack_into('<I', self.record, off + 4 + 4 * p, v)
            struct.pack_into('<I', self.record, off, p + 1)
        return v

    def chance(self, stream, a, b):
        """True a times in b; never when all choices are 0."""
        return self.draw(stream, b) >= b - a

    def pick(self, stream, items):
        return items[self.draw(stream, len(items))]

    # what happened
    def ev(self, text):
        self.events += 1
        self.h.update(text.encode() + b'\n')
        if self.keep_trace:
            self.trace.append(text)

    def fault(self, name):
        self.faults[name] = self.faults.get(name, 0) + 1

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def cover(self, *a):
        self.states.add(mix(hash(a) & M64) & 0xffffff)

    def violate(self, kind, msg):
        """Note the first violation. Raises, but the caller may be a callback which cannot let an exception pass."""
        if not self.kind:
            self.kind = kind
            self.msg = re.sub('0x[0-9a-f]+', '0x..', msg.replace('\n', ' '))[:600]      # addresses differ from run to run
            self.ev('VIOLATION %s %s' % (kind, self.msg))
        raise Violation(msg)

    def check(self):
        if self.kind:
            raise Violation(self.msg)

    def step(self, limit=400000):
        self.steps += 1
        if self.steps > limit:
            raise RunEnd()


class Outcome:
    def __init__(self, kind='', msg='', h=0, choices=None, trace=None):
        self.kind, self.msg, self.h = kind, msg, h
        self.choices = choices or [[] for _ in STREAMS]
        self.trace = trace or []

    def same(self, o):
        return self.kind == o.kind and (self.h == o.h or not hash_matters(self.kind))


def hash_matters(kind):
    return not kind.startswith(('crash', 'hang'))


def execute(world, run):
    gc.disable()
    try:
        world.run(run)
    except (Violation, RunEnd):
        pass
    except MemoryError:
        raise
    except Exception as ex:    # the code under test, or the world: either way this run is not fine
        import traceback
        tb = traceback.extract_tb(ex.__traceback__)
        if not run.kind:
            last = tb[-1]
            run.kind = 'exception'
            run.msg = '%s: %s at %s in %s' % (type(ex).__name__, ex, os.path.basename(last.filename), last.name)
            run.msg = re.sub('0x[0-9a-f]+', '0x..', run.msg)[:300]
            run.ev('VIOLATION exception ' + run.msg)
            if os.environ.get('PYSIM_DEBUG'):
                traceback.print_exc()
    world.cleanup()
    return int.from_bytes(run.h.digest(), 'little')


CPU_LIMIT = 10


def arm_cpu():
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)


def child_setup():
    signal.signal(signal.SIGPROF, signal.SIG_DFL)
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    dn = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get('PYSIM_DEBUG'):
        os.dup2(dn, 1)
        os.dup2(dn, 2)
    arm_cpu()


def crash_kind(status):
    if os.WIFSIGNALED(status):
        s = os.WTERMSIG(status)
        if s == signal.SIGPROF:
            return 'hang'
        return 'crash-' + signal.Signals(s).name
    return 'crash-exit%d' % os.WEXITSTATUS(status)


def isolated(world, seed, run, given=None, trace=False):
    """One run in a process of its own."""
    shared = mmap.mmap(-1, 4 * (MAXC + 1) * len(STREAMS))
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            os.close(r)
            child_setup()
            x = Run(seed, run, given, shared)
            x.keep_trace = trace
            h = execute(world, x)
            with os.fdopen(w, 'wb') as f:
                pickle.dump((x.kind, x.msg, h, x.trace), f)
            rc = 0
        finally:
            os._exit(rc)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    choices = []
    for s in range(len(STREAMS)):
        off = s * (MAXC + 1) * 4
        n = struct.unpack_from('<I', shared, off)[0]
        choices.append(list(struct.unpack_from('<%dI' % n, shared, off + 4)))
    shared.close()
    if status == 0 and data:
        kind, msg, h, tr = pickle.loads(data)
        return Outcome(kind, msg, h, choices, tr)
    k = crash_kind(status)
    return Outcome(k, 'the process ended: ' + k, 0, choices)


def minimise(world, o, budget):
    """Shorten and zero the choices while the same kind of violation remains."""
    end = _now() + budget
    best = o
    tries = 0

    def attempt(c):
        nonlocal best, tries
        if _now() > end:
            return False
        tries += 1
        n = isolated(world, 0, 0, c)
        if n.kind == best.kind:
            # keep only what was used
            n.choices = [x[:] for x in n.choices]
            best = n
            return True
        return False

    changed = True
    while changed and _now() < end:
        changed = False
        for s in range(len(STREAMS)):
            # cut the tail
            n = len(best.choices[s])
            cut = n
            while cut > 0 and _now() < end:
                c = [list(x) for x in best.choices]
                c[s] = c[s][:max(0, len(c[s]) - cut)]
                before = len(best.choices[s])
                if any(best.choices[s][before - cut:]) and attempt(c):
                    changed = True
                    break
                cut //= 2
            # remove and zero blocks
            size = max(1, len(best.choices[s]) // 2)
            while size >= 1 and _now() < end:
                i = 0
                while i < len(best.choices[s]) and _now() < end:
                    cur = best.choices[s]
                    c = [list(x) for x in best.choices]
                    c[s] = cur[:i] + cur[i + size:]
                    if len(c[s]) < len(cur) and attempt(c) and len(best.choices[s]) < len(cur):
                        changed = True
                        continue
                    cur = best.choices[s]
                    if any(cur[i:i + size]):
                        c = [list(x) for x in best.choices]
                        c[s] = cur[:i] + [0] * len(cur[i:i + size]) + cur[i + size:]
                        if attempt(c):
                            changed = True
                    i += size
                size //= 2
    return best, tries


def write_replay(path, world, prop, seed, run, o, minimised, before):
    with open(path, 'w') as f:
        f.write('dst-replay 1\nworld %s\nproperty C%02d\nseed %d\nrun %d\nkind %s\nhash %016x\nmsg %s\nminimised %d of %d choices %d\n'
                % (world.name, prop, seed, run, o.kind, o.h, o.msg, sum(map(len, o.choices)), before, int(minimised)))
        for s, c in enumerate(o.choices):
            f.write('stream %d %d%s\n' % (s, len(c), ''.join(' %d' % v for v in c)))


def read_replay(path):
    d = {'choices': [[] for _ in STREAMS]}
    for line in open(path):
        p = line.split()
        if not p:
            continue
        if p[0] == 'trace':
            break
        if p[0] == 'stream':
            d['choices'][int(p[1])] = [int(v) for v in p[3:]]
        elif p[0] in ('kind', 'hash', 'property') and len(p) > 1:
            d[p[0]] = p[1]
    return d


def add(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v


def search(world, a):
    t0 = _now()
    end = t0 + a.wall
    workers = a.workers or os.cpu_count() or 1
    stop = mmap.mmap(-1, 8)
    stop[:] = struct.pack('<Q', M64)
    cur = [mmap.mmap(-1, 8) for _ in range(workers)]
    pipes = {}
    pids = {}
    nexts = [a.first + w for w in range(workers)]
    crashes = [0] * workers

    def lower(i):
        if not a.keep and i < struct.unpack('<Q', stop[:])[0]:
            stop[:] = struct.pack('<Q', i)

    def launch(w):
        sys.stdout.flush()
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                child_setup()
                out = os.fdopen(wr, 'wb')
                i = nexts[w]
                while i < a.first + a.runs:
                    if i > struct.unpack('<Q', stop[:])[0] or _now() > end:
                        break
                    cur[w][:] = struct.pack('<Q', i)
                    arm_cpu()
                    x = Run(a.seed, i)
                    h = execute(world, x)
                    if x.kind:
                        lower(i)
                    pickle.dump((i, x.kind, x.msg, h, x.nontrivial, x.sim_ns, x.events, x.steps, x.faults, x.probes,
                                 tuple(x.states)), out)
                    out.flush()
                    i += workers
                os._exit(0)
            finally:
                os._exit(9)
        os.close(wr)
        pipes[r] = (w, bytearray())
        pids[w] = pid

    res = {'runs': 0, 'runs_nontrivial': 0, 'sim_ns': 0, 'events': 0, 'steps': 0}
    faults, probes, states, hashes, found = {}, {}, set(), set(), []
    for w in range(workers):
        launch(w)

    class Need(Exception):
        pass

    def consume(buf):
        import io
        while buf:
            f = io.BytesIO(bytes(buf))
            try:
                t = pickle.load(f)
            except (EOFError, pickle.UnpicklingError, ValueError, IndexError, KeyError):
                return
            del buf[:f.tell()]
            i, kind, msg, h, nt, sim, events, steps, fl, pr, st = t
            res['runs'] += 1
            res['sim_ns'] += sim
            res['events'] += events
            res['steps'] += steps
            add(faults, fl)
            add(probes, pr)
            states.update(st)
            if nt:
                res['runs_nontrivial'] += 1
                hashes.add(h)
            if kind:
                found.append((i, kind, msg))

    while pipes:
        ready, _, _ = select.select(list(pipes), [], [], 1.0)
        for fd in ready:
            w, buf = pipes[fd]
            data = os.read(fd, 1 << 16)
            if data:
                buf += data
                consume(buf)
                continue
            os.close(fd)
            del pipes[fd]
            _, status = os.waitpid(pids[w], 0)
            if status == 0:
                continue
            i = struct.unpack('<Q', cur[w][:])[0]
            found.append((i, crash_kind(status), 'the process ended: ' + crash_kind(status)))
            res['runs'] += 1
            lower(i)
            crashes[w] += 1
            nexts[w] = i + workers
            if crashes[w] < 10 and _now() < end:
                launch(w)
    search_s = _now() - t0
    found.sort()
    viol = None
    rv = 0
    if found:
        rv = 2
        for n, (i, kind, msg) in enumerate(found[:5]):
            o1 = isolated(world, a.seed, i)
            o2 = isolated(world, a.seed, i)
            if not o1.kind or not o1.same(o2):
                sys.stderr.write('run %d: not reproducible (%s / %s / %s)\n' % (i, kind, o1.kind, o2.kind))
                continue
            before = sum(map(len, o1.choices))
            os.makedirs(a.out, exist_ok=True)
            path = '%s/C%02d-seed%d-run%d.replay' % (a.out, a.prop, a.seed, i)
            m, tries = minimise(world, o1, a.min)
            use, ok = m, True
            write_replay(path, world, a.prop, a.seed, i, m, True, before)
            if not fresh(path):
                use, ok = o1, False
                write_replay(path, world, a.prop, a.seed, i, o1, False, before)
                if not fresh(path):
                    sys.stderr.write('run %d: fresh replay failed\n' % i)
                    continue
            t = isolated(world, 0, 0, use.choices, True)
            with open(path, 'a') as f:
                f.write('trace\n' + '\n'.join(t.trace) + '\n')
            viol = {'run': i, 'kind': use.kind, 'msg': use.msg, 'replay': path, 'minimised': ok,
                    'choices_before': before, 'choices_after': sum(map(len, use.choices)), 'candidates': tries}
            rv = 1
            break
    wall = _now() - t0
    if a.result:
        d = {'world': world.name, 'property': 'C%02d' % a.prop, 'seed': a.seed, 'first_run': a.first, 'requested': a.runs,
             'workers': workers, 'search_s': round(search_s, 3), 'wall_s': round(wall, 3), 'sim_s': res['sim_ns'] / 1e9,
             'runs': res['runs'], 'runs_nontrivial': res['runs_nontrivial'], 'events': res['events'], 'steps': res['steps'],
             'states': len(states), 'interleavings': len(hashes), 'off_target_violations': 0, 'off_target_kind': '',
             'faults': faults, 'probes': probes, 'found': len(found), 'rv': rv}
        if viol:
            d['violation'] = viol
        json.dump(d, open(a.result, 'w'))
    print('C%02d %s: %d runs in %.1f s, %d violations' % (a.prop, world.name, res['runs'], search_s, len(found)))
    if a.keep:
        for i, kind, msg in found[:200]:
            print('  %d %s: %s' % (i, kind, msg))
    if viol:
        print('%s: %s' % (viol['kind'], viol['msg']))
        print('VIOLATION property=C%02d replay=%s' % (a.prop, viol['replay']))
    return rv


def fresh(path):
    r = subprocess.run([sys.executable] + sys.argv[:1] + ORIGIN + ['--replay', path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    return r.returncode == 1


ORIGIN = []


class Args:
    prop, seed, runs, first, wall, workers, out, result, replay, scenario = 0, 1, 1000, 0, 60.0, 0, 'out', '', '', ''
    trace = keep = False
    min = 40.0
    hash = None
    world = package = ''


def main():
    a = Args()
    argv = sys.argv[1:]
    i = 0
    while i < len(argv):
        k = argv[i]

        def val():
            nonlocal i
            i += 1
            return argv[i] if i < len(argv) else ''
        if k == '--world':
            a.world = val()
        elif k == '--package':
            a.package = val()
        elif k == '--prop':
            v = val()
            a.prop = int(v[1:] if v[:1] == 'C' else v)
        elif k in ('--seed', '--runs', '--first', '--workers'):
            setattr(a, k[2:], int(val(), 0))
        elif k in ('--wall', '--min'):
            setattr(a, k[2:], float(val()))
        elif k in ('--out', '--result', '--replay', '--scenario'):
            setattr(a, k[2:], val())
        elif k == '--trace':
            a.trace = True
        elif k == '--keep':
            a.keep = True
        elif k == '--hash':
            a.hash = (int(val()), int(val()))
        else:
            sys.stderr.write('unknown option %s\n' % k)
            return 2
        i += 1
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    ORIGIN[:] = ['--world', a.world, '--package', a.package]
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    try:
        world = importlib.import_module('pyworld_' + a.world).World(a.package)
    except Exception as ex:
        # the package under test does not load: that is a violation only when it is the package's own doing
        sys.stderr.write('cannot load the world: %s: %s\n' % (type(ex).__name__, ex))
        if os.environ.get('PYSIM_DEBUG'):
            raise
        return 2
    if a.replay:
        d = read_replay(a.replay)
        o = isolated(world, 0, 0, d['choices'], a.trace)
        for t in o.trace:
            print(t)
        print('replay kind=%s hash=%016x expected kind=%s hash=%s\n%s' % (o.kind, o.h, d['kind'], d['hash'], o.msg))
        if o.kind and o.kind == d['kind'] and ('%016x' % o.h == d['hash'] or not hash_matters(o.kind)):
            print('VIOLATION property=%s replay=%s' % (d['property'], a.replay))
            return 1
        if o.kind:
            print('a different violation')
            return 2
        return 0
    if a.scenario:
        return 2
    if a.hash:
        for r in range(*a.hash):
            if a.trace:
                o = isolated(world, a.seed, r, None, True)
                for t in o.trace:
                    print(t)
            else:
                x = Run(a.seed, r)
                h = execute(world, x)
                o = Outcome(x.kind, x.msg, h)
            print('%d %016x %s %s' % (r, o.h, o.kind, o.msg))
        return 0
    return search(world, a)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
