#!/usr/bin/env python3
"""Build and run the deterministic simulation of one property.

  check.py C01 quick|thorough     the check: exit 0, or 1 with a VIOLATION line
  check.py replay FILE [--trace]  reproduce a replay file
  check.py build [world...]       build only (all worlds by default)
  check.py determinism [N]        run N seeds of every property twice each and compare

Environment: VERIF_SEED (default 1), VERIF_REPO (default /repo).
"""
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SIM = os.path.join(HERE, 'sim')
OUT = os.path.join(HERE, 'out')
BUILD = os.path.join(HERE, 'build')
sys.path.insert(0, SIM)
from worlds import WORLDS, CHECKS  # noqa: E402

SAN = ['-fsanitize=address,bounds', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
CFLAGS = ['-std=gnu99', '-DEMBC_DST', '-O1', '-g1', '-w', '-fexceptions', '-fno-pic', '-fno-common',
          '-fno-zero-initialized-in-bss', '-ftrivial-auto-var-init=pattern', '-fsanitize-address-use-after-scope'] + SAN
CXXFLAGS = ['-std=c++17', '-O1', '-g1', '-w', '-fno-pic'] + SAN
LDFLAGS = ['-no-pie'] + SAN
PYFLAGS = ['-std=gnu99', '-O1', '-g1', '-w', '-fPIC', '-fno-common', '-ftrivial-auto-var-init=pattern',
           '-fsanitize=bounds', '-fsanitize-trap=bounds']     # the library as the Python package loads it


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def config_h(inc):
    """src/config.h.in -> embc/config.h as CMake's configure_file would."""
    try:
        text = open(os.path.join(REPO, 'src/config.h.in')).read()
        m = re.search(r'VERSION\s+(\d+)\.(\d+)\.(\d+)', open(os.path.join(REPO, 'CMakeLists.txt')).read())
        v = m.groups() if m else ('0', '0', '0')
    except OSError as ex:
        raise CheckError(str(ex))
    sub = {'EMBC_PLATFORM': 'STDLIB', 'PROJECT_PREFIX': 'EMBC', 'PROJECT_VERSION_MAJOR': v[0],
           'PROJECT_VERSION_MINOR': v[1], 'PROJECT_VERSION_PATCH': v[2]}
    text = re.sub(r'@(\w+)@', lambda k: sub.get(k.group(1), ''), text)
    os.makedirs(os.path.join(inc, 'embc'), exist_ok=True)
    path = os.path.join(inc, 'embc', 'config.h')
    if not os.path.exists(path) or open(path).read() != text:
        open(path, 'w').write(text)


def repo_files():
    files = sorted(glob.glob(REPO + '/src/**/*', recursive=True) + glob.glob(REPO + '/include/**/*', recursive=True)
                   + glob.glob(REPO + '/third-party/uthash/src/*') + glob.glob(REPO + '/third-party/tinyprintf/*')
                   + [REPO + '/CMakeLists.txt'])
    return [f for f in files if os.path.isfile(f)]


def digest(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode() + b'\0')
        h.update(open(f, 'rb').read())
        h.update(b'\0')
    return h.hexdigest()[:20]


def build(worlds):
    """Compile the working tree of the repository and the given worlds; returns {world: binary}."""
    python = {w: build_python(w) for w in worlds if WORLDS[w].get('python')}
    result = build_c([w for w in worlds if w not in python])
    result.update(python)
    return result


def build_python(world):
    """The Python package of the working tree with its C library; returns a runner for it."""
    py = os.path.join(REPO, 'py')
    tools = [f for f in sorted(glob.glob(py + '/**/*.py', recursive=True)) if '/test/' not in f]
    sims = [SIM + '/pysim.py', SIM + '/pyworld_%s.py' % world]
    bdir = os.path.join(BUILD, digest(repo_files() + tools + sims, ' '.join(PYFLAGS) + REPO + SIM))
    runner = os.path.join(bdir, world)
    if os.path.exists(runner):
        return runner
    prune(bdir)
    tmp = os.path.join(BUILD, 'tmp-py-%d' % os.getpid())
    os.makedirs(tmp)
    try:
        inc = os.path.join(tmp, 'include')
        config_h(inc)
        incs = ['-I' + REPO + '/include', '-I' + inc, '-I' + REPO + '/third-party/uthash/src', '-I' + REPO + '/third-party/tinyprintf']
        jobs = []
        for s in sorted(glob.glob(REPO + '/src/**/*.c', recursive=True)):
            o = os.path.join(tmp, os.path.relpath(s, REPO + '/src').replace('/', '_') + '.o')
            jobs.append((s, o, ['clang'] + PYFLAGS + incs + ['-D__FILENAME__="%s"' % os.path.basename(s), '-c', s, '-o', o]))
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            for (s, o, _), r in ex.map(lambda j: (j, sh(j[2])), jobs):
                if r.returncode:
                    raise CheckError('cannot compile %s\n%s' % (s, r.stdout[-4000:]))
        pkg = os.path.join(tmp, 'package')
        for f in tools:
            to = os.path.join(pkg, os.path.relpath(f, py))
            os.makedirs(os.path.dirname(to), exist_ok=True)
            shutil.copyfile(f, to)
        r = sh(['clang', '-shared', '-o', pkg + '/embc/libembc.dll'] + [o for _, o, _ in jobs])
        if r.returncode:
            raise CheckError('cannot link the shared library\n' + r.stdout[-4000:])
        name = os.path.join(tmp, world)
        with open(name, 'w') as f:
            f.write('#!/bin/sh\nPYTHONHASHSEED=0 exec python3 -B "%s" --world %s --package "%s" "$@"\n' % (sims[0], world, bdir + '/package'))
        os.chmod(name, 0o755)
        shutil.rmtree(inc)
        try:
            os.rename(tmp, bdir)
        except OSError:     # another check was faster
            if not os.path.exists(runner):
                raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return runner


def prune(keep):
    """Keep the build folder small: only what was used lately."""
    for d in glob.glob(BUILD + '/*'):
        if d != keep and os.path.isdir(d) and time.time() - os.path.getmtime(d) > 3600:
            shutil.rmtree(d, ignore_errors=True)


def build_c(worlds):
    sim_files = sorted(glob.glob(SIM + '/*.cpp') + glob.glob(SIM + '/*.hpp') + glob.glob(SIM + '/*.h'))
    key_repo = digest(repo_files(), ' '.join(CFLAGS) + REPO)
    bdir = os.path.join(BUILD, key_repo)
    core = [SIM + '/dst.cpp', SIM + '/dst.hpp']
    result = {}
    todo = []
    for w in worlds:
        key = digest(sorted(set(core + [SIM + '/' + w + '.cpp'] + glob.glob(SIM + '/' + w + '_c.c') + [f for f in sim_files if f.endswith(('.hpp', '.h'))])),
                     key_repo + ' '.join(CXXFLAGS))
        binary = os.path.join(bdir, '%s-%s' % (w, key))
        result[w] = binary
        if not os.path.exists(binary):
            todo.append((w, binary, key))
    if not todo:
        return result
    prune(bdir)
    os.makedirs(bdir, exist_ok=True)
    tmp = os.path.join(bdir, 'tmp-%d' % os.getpid())
    os.makedirs(tmp)
    try:
        inc = os.path.join(tmp, 'include')
        config_h(inc)
        incs = ['-I' + REPO + '/include', '-I' + inc, '-I' + REPO + '/third-party/uthash/src',
                '-I' + REPO + '/third-party/tinyprintf']
        srcs = [s for s in sorted(glob.glob(REPO + '/src/**/*.c', recursive=True))
                if os.path.relpath(s, REPO + '/src') != 'lib.c']
        jobs = []
        for s in srcs:
            o = os.path.join(tmp, os.path.relpath(s, REPO + '/src').replace('/', '_') + '.o')
            jobs.append((s, o, ['clang'] + CFLAGS + incs + ['-D__FILENAME__="%s"' % os.path.basename(s), '-c', s, '-o', o]))
        for w, _, _ in todo:   # what a world must compile as C: code from macros and inline functions
            if os.path.exists(SIM + '/%s_c.c' % w):
                s = SIM + '/%s_c.c' % w
                o = os.path.join(tmp, w + '_c.o')
                jobs.append((s, o, ['clang'] + CFLAGS + incs + ['-I' + REPO + '/src', '-D__FILENAME__="%s_c.c"' % w, '-c', s, '-o', o]))
        for f in [SIM + '/dst.cpp'] + [SIM + '/%s.cpp' % w for w, _, _ in todo]:
            o = os.path.join(tmp, os.path.basename(f) + '.o')
            jobs.append((f, o, ['clang++'] + CXXFLAGS + incs + ['-I' + SIM, '-D__FILENAME__="sim"', '-c', f, '-o', o]))
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            done = list(ex.map(lambda j: (j, sh(j[2])), sorted(jobs, key=lambda j: not j[0].endswith('.cpp'))))
        objs, wobj = [], {}
        for (src, o, _), r in done:
            if r.returncode:
                raise CheckError('cannot compile %s\n%s' % (src, r.stdout[-4000:]))
            if src.startswith(REPO):
                objs.append(o)
            elif src.endswith('.c'):
                wobj[os.path.basename(src)[:-4]] = o
        redefine = []
        for n in ('malloc', 'calloc', 'realloc', 'free', 'strdup'):
            redefine += ['--redefine-sym', '%s=sim_%s' % (n, n)]
        for o in objs + list(wobj.values()):
            r = sh(['objcopy'] + redefine + ['--rename-section', '.data=repo_data', o])
            if r.returncode:
                raise CheckError('objcopy: ' + r.stdout)
        lib = os.path.join(tmp, 'librepo.a')
        sh(['ar', 'rcs', lib] + objs)
        for w, binary, _ in todo:
            r = sh(['clang++'] + LDFLAGS + [tmp + '/dst.cpp.o', tmp + '/%s.cpp.o' % w] + ([wobj[w]] if w in wobj else []) + [
                                            '-Wl,--whole-archive', lib, '-Wl,--no-whole-archive', '-o', binary + '.tmp%d' % os.getpid()])
            if r.returncode:
                raise CheckError('cannot link %s\n%s' % (w, r.stdout[-4000:]))
            os.rename(binary + '.tmp%d' % os.getpid(), binary)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return result


def known_findings():
    """{scenario: (property, text, kind)} of the findings recorded in known_findings.txt."""
    r = {}
    for line in open(os.path.join(HERE, 'known_findings.txt')):
        m = re.match(r'known: property=(C\d+) scenario=(\S+) kind=(\S+) (.*)', line.strip())
        if m:
            r[m.group(2)] = (m.group(1), m.group(4), m.group(3))
    return r


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    c = CHECKS[prop]
    w = c['world']
    binary = build([w])[w]
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(HERE + '/evidence', exist_ok=True)
    build_s = time.time() - t0
    runs, wall = c[tier]
    result = os.path.join(OUT, '%s-%s-%d.json' % (prop, tier, os.getpid()))
    r = subprocess.run([binary, '--prop', prop, '--seed', str(seed), '--runs', str(runs), '--wall', str(wall),
                        '--out', OUT, '--result', result], stdout=subprocess.PIPE, text=True)
    sys.stdout.write(r.stdout)
    if r.returncode not in (0, 1):
        raise CheckError('the simulation ended with %d' % r.returncode)
    res = json.load(open(result))
    os.remove(result)
    rv = r.returncode
    # recorded findings: fixed histories which are still expected to fail
    known = known_findings()
    scenarios = []
    for sc in c.get('scenarios', []):
        s = sh([binary, '--scenario', sc])
        line = s.stdout.strip().splitlines()[-1] if s.stdout.strip() else ''
        if s.returncode == 1:
            kind = re.search(r' kind=(\S+)', line)
            if sc in known and known[sc][0] == prop and kind and kind.group(1) == known[sc][2]:
                print('KNOWN-FINDING: property=%s %s' % (prop, known[sc][1]))
                scenarios.append({'scenario': sc, 'outcome': 'known finding: ' + line})
            else:
                path = os.path.join(OUT, '%s-scenario-%s.txt' % (prop, sc))
                open(path, 'w').write('dst-scenario\n%s\n%s\n' % (w, sc) + s.stdout)
                print(line)
                print('VIOLATION property=%s replay=%s' % (prop, path))
                scenarios.append({'scenario': sc, 'outcome': 'violation: ' + line})
                rv = 1
        elif s.returncode == 0:
            scenarios.append({'scenario': sc, 'outcome': 'holds'})
        else:
            raise CheckError('scenario %s: %s' % (sc, s.stdout))
    samples = []
    if res['runs']:
        s = sh([binary, '--prop', prop, '--seed', str(seed), '--hash', '0', '3', '--trace'])
        cur = []
        for line in s.stdout.splitlines():
            if re.match(r'\d+ [0-9a-f]{16} ', line + ' '):
                samples.append({'run': int(line.split()[0]), 'hash': line.split()[1], 'events': len(cur),
                                'trace': cur[:60] + (['...'] if len(cur) > 60 else [])})
                cur = []
            else:
                cur.append(line)
    W = WORLDS[w]
    per_h = 3600.0 / max(res['search_s'], 1e-3)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': res['runs'],
            'distinct_nontrivial': res['interleavings'],
            'rule': W['rule'],
            'samples': samples,
            'runs': res['runs'], 'runs_requested': res['requested'], 'runs_nontrivial': res['runs_nontrivial'],
            'runs_per_hour': int(res['runs'] * per_h),
            'seeds_per_hour': int(res['runs'] * per_h),
            'simulated_seconds': res['sim_s'],
            'simulated_hours_per_wall_hour': round(res['sim_s'] / max(res['search_s'], 1e-3), 1),
            'events': res['events'], 'steps': res['steps'],
            'faults_injected': res['faults'],
            'rare_situations_reached': res['probes'],
            'distinct_states': res['states'], 'state_measure': W['state_measure'],
            'distinct_interleavings': res['interleavings'],
            'interleaving_measure': 'distinct hashes of the complete ordered event trace of a non-trivial run (24 bit table, undercounts)',
            'real_components': W['real'], 'stub_components': W['stub'],
            'scenarios': scenarios,
            'workers': res['workers'], 'build_s': round(build_s, 2), 'search_s': res['search_s'],
            'violations_of_other_properties': res['off_target_violations'],
        },
        'assumptions': W['assumptions'] + c.get('assumptions', []),
        'wall_s': round(time.time() - t0, 3),
        'violations': (1 if 'violation' in res else 0) + sum(1 for s in scenarios if s['outcome'].startswith('violation')),
    }
    if 'violation' in res:
        ev['coverage']['violation'] = res['violation']
    path = HERE + '/evidence/%s.json' % prop
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(path + '.tmp', path)
    return rv


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    try:
        if a[0] == 'build':
            r = build(a[1:] or sorted(WORLDS))
            for w in sorted(r):
                print(w, r[w])
            return 0
        if a[0] == 'replay':
            lines = open(a[1]).read().splitlines()
            if lines[0] == 'dst-scenario':
                return subprocess.run([build([lines[1]])[lines[1]], '--scenario', lines[2]] + a[2:]).returncode
            w = [x.split()[1] for x in lines if x.startswith('world ')][0]
            return subprocess.run([build([w])[w], '--replay', a[1]] + a[2:]).returncode
        if a[0] == 'determinism':
            return determinism(int(a[1]) if len(a) > 1 else 300)
        tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
        return check(a[0], tier)
    except CheckError as ex:
        print('ERROR: %s' % ex)
        return 2


def determinism(n):
    """Every run twice in separate processes, and once more in chunks of another size: all hashes must agree."""
    bins = build(sorted(WORLDS))
    bad = 0
    jobs = []
    for prop in sorted(CHECKS):
        for seed in (1, 7):
            jobs.append((prop, seed))

    def one(j):
        prop, seed = j
        b = bins[CHECKS[prop]['world']]

        def hashes(chunks):
            r = []
            for lo, hi in chunks:
                s = sh([b, '--prop', prop, '--seed', str(seed), '--hash', str(lo), str(hi)])
                r += s.stdout.splitlines()
            return r
        x = hashes([(0, n)])
        y = hashes([(0, n)])
        z = hashes([(k, min(n, k + 37)) for k in range(0, n, 37)])
        return prop, seed, len(x), sum(1 for p, q, s in zip(x, y, z) if not (p == q == s)) + abs(len(x) - len(z)) + abs(n - len(x))
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for prop, seed, cnt, d in ex.map(one, jobs):
            print('%s seed %d: %d runs, %d differ' % (prop, seed, cnt, d))
            bad += d
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
