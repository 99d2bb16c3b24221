#!/usr/bin/env python3
"""Decides one property of Vc by deterministic simulation.

  check.py C02 [--tier quick|thorough]     exit 0: held on everything explored
                                           exit 1: VIOLATION line printed
  check.py C02 --replay FILE               repeats a reported violation exactly
  check.py C02 --determinism               proves runs are repeatable (own check)

Compiles the current /repo tree (workload + libVc) to assembly, puts a yield
point before every access to memory that another thread could see
(sim/asmsim.py), links it with the simulator (sim/sim.cpp) and searches seeds.
"""
import argparse
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VC_REPO', '/repo')
OUT = os.environ.get('VC_OUT', os.path.join(HERE, 'out'))
sys.path.insert(0, HERE)
from checks.config import PROPERTIES  # noqa: E402

CXX = 'g++'
BASE = ['-std=c++14', '-O2', '-DNDEBUG', '-w', '-ffp-contract=fast', '-fabi-version=0', '-fno-pic', '-fno-pie',
        '-mno-red-zone', '-fcf-protection=none', '-I' + os.path.join(REPO, 'include'), '-I' + REPO]
IMPL = {
    'scalar': ['-DVc_IMPL=Scalar'],
    'sse2': ['-msse2'],
    'sse4': ['-msse4.2', '-mpopcnt'],
    'avx': ['-mavx'],
    'avx2': ['-mavx2', '-mfma', '-mbmi', '-mbmi2', '-mf16c', '-mpopcnt', '-mlzcnt'],
}
# configurations that the repository tests as well
IMPL['sse4+bsf'] = IMPL['sse4'] + ['-DVc_USE_BSF_GATHERS', '-DVc_USE_BSF_SCATTERS']
IMPL['avx+bsf'] = IMPL['avx'] + ['-mpopcnt', '-DVc_USE_BSF_GATHERS', '-DVc_USE_BSF_SCATTERS']
IMPL['sse4+popcnt'] = IMPL['sse4'] + ['-DVc_USE_POPCNT_BSF_GATHERS', '-DVc_USE_POPCNT_BSF_SCATTERS']
IMPL['avx+popcnt'] = IMPL['avx'] + ['-mpopcnt', '-DVc_USE_POPCNT_BSF_GATHERS', '-DVc_USE_POPCNT_BSF_SCATTERS']
IMPL['avx2+popcnt'] = IMPL['avx2'] + ['-DVc_USE_POPCNT_BSF_GATHERS', '-DVc_USE_POPCNT_BSF_SCATTERS']
# (source, Vc_IMPL, flags) as in /repo/CMakeLists.txt
LIB = [('src/const.cpp', None, []), ('src/cpuid.cpp', None, []), ('src/support_x86.cpp', None, [])]
for _impl, _fl in (('SSE2', ['-msse2']), ('SSE3', ['-msse3']), ('SSSE3', ['-mssse3']), ('SSE4_1', ['-msse4.1']),
                   ('AVX', ['-mavx']), ('AVX+FMA', ['-mavx', '-mfma']),
                   ('AVX2+FMA+BMI2', ['-mavx2', '-mfma', '-mbmi2'])):
    LIB.append(('src/trigonometric.cpp', _impl, _fl))
    if _impl in ('SSE2', 'SSE4_1', 'AVX', 'AVX2+FMA+BMI2'):
        LIB.append(('src/sse_sorthelper.cpp', _impl, _fl))
    if _impl in ('AVX', 'AVX2+FMA+BMI2'):
        LIB.append(('src/avx_sorthelper.cpp', _impl, _fl))
WRAP = ('malloc free calloc realloc posix_memalign aligned_alloc memalign __cxa_guard_acquire __cxa_guard_release '
        '__cxa_guard_abort pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_once '
        'sched_yield isatty fileno').split()


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout.decode(errors='replace')[:4000]))
    return p.stdout


def obj(src, flags, tag, instrument=True, std=None):
    """compiles src; the object is cached under the hash of the preprocessed text"""
    base = [f for f in BASE if std is None or not f.startswith('-std=')]
    if std:
        base = ['-std=' + std] + base
    if not instrument:
        base = [f for f in base if f not in ('-mno-red-zone',)]
    pre = run([CXX, '-E', '-P'] + base + flags + [src])
    h = hashlib.sha256(pre)
    h.update(' '.join(base + flags).encode())
    if instrument:
        h.update(open(os.path.join(HERE, 'sim/asmsim.py'), 'rb').read())
    key = h.hexdigest()[:24]
    o = os.path.join(OUT, 'cache', '%s-%s.o' % (tag, key))
    if os.path.exists(o):
        return o
    tmp = '%s.%d' % (o, os.getpid())
    if instrument:
        run([CXX, '-S', '-o', tmp + '.s'] + base + flags + [src])
        run([sys.executable, os.path.join(HERE, 'sim/asmsim.py'), tmp + '.s', tmp + '.sim.s'] +
            (['workload'] if src.startswith(HERE) else []))
        run(['as', '-o', tmp, tmp + '.sim.s'])
        os.unlink(tmp + '.s')
        os.unlink(tmp + '.sim.s')
    else:
        run([CXX, '-c', '-o', tmp] + base + flags + [src])
    os.rename(tmp, o)
    return o


def build(prop, binaries):
    """binaries: list of (name, source, impl, part, defines) -> {name: path}"""
    os.makedirs(os.path.join(OUT, 'cache'), exist_ok=True)
    os.makedirs(os.path.join(OUT, 'bin'), exist_ok=True)
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        work = {}
        for name, src, impl, part, defs in binaries:
            fl = IMPL[impl] + ['-DPART=%d' % part] + ['-D' + d for d in defs]
            work[name] = ex.submit(obj, os.path.join(HERE, 'checks', src), fl, name)
        sim = ex.submit(obj, os.path.join(HERE, 'sim/sim.cpp'), ['-mfsgsbase'], 'sim', False, 'c++17')
        lib = []
        for src, impl, fl in LIB:
            tag = os.path.basename(src).replace('.cpp', '') + (('-' + impl) if impl else '')
            f = ['-DVc_COMPILE_LIB'] + fl + (['-DVc_IMPL=' + impl] if impl else [])
            lib.append(ex.submit(obj, os.path.join(REPO, src), f, tag))
        stub = os.path.join(OUT, 'cache', 'stub-%d.o' % os.getpid())
        run([CXX, '-c', '-o', stub, os.path.join(HERE, 'sim/stub.S')])
        objs = {n: f.result() for n, f in work.items()}
        common = [sim.result(), stub]
        # an archive in the order of the shipped libVc.a, whose first definition wins
        libs = [os.path.join(OUT, 'cache', 'libVcsim-%d.a' % os.getpid())]
        run(['ar', 'rcs', libs[0]] + [f.result() for f in lib])

        def link(name, impl):
            exe = os.path.join(OUT, 'bin', name)
            inf = os.path.join(OUT, 'cache', 'name-%s-%d.cpp' % (name, os.getpid()))
            with open(inf, 'w') as f:
                f.write('namespace sim { extern const char *const implName; const char *const implName = "%s"; }\n' % name)
            run([CXX, '-static', '-no-pie', '-o', exe, objs[name], inf] + common + libs +
                ['-Wl,--wrap=' + w for w in WRAP] + ['-lpthread'])
            os.unlink(inf)
            return exe
        exes = {b[0]: ex.submit(link, b[0], b[2]) for b in binaries}
        res = {n: f.result() for n, f in exes.items()}
        os.unlink(stub)
        os.unlink(libs[0])
        return res


def binaries_of(prop, cfg):
    out = []
    for impl in cfg['impls']:
        for part in cfg.get('parts', [0]):
            out.append(('%s-%s-p%d' % (prop.lower(), impl, part), cfg['source'], impl, part, cfg.get('defines', [])))
    for impl, part in cfg.get('more', []):
        out.append(('%s-%s-p%d' % (prop.lower(), impl, part), cfg['source'], impl, part, cfg.get('defines', [])))
    return out


def known_findings(prop):
    """[(pattern, text)] of this property from known_findings.txt"""
    res = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) class=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3).strip()))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--setup', action='store_true', help='build the simulator itself and try it')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--time', type=float, default=0, help='search seconds')
    ap.add_argument('--only', default='', help='only binaries whose name contains this')
    ap.add_argument('--replay')
    ap.add_argument('--determinism', action='store_true')
    ap.add_argument('--build', action='store_true')
    a = ap.parse_args()
    if a.setup:
        os.makedirs(os.path.join(OUT, 'cache'), exist_ok=True)
        obj(os.path.join(HERE, 'sim/sim.cpp'), ['-mfsgsbase'], 'sim', False, 'c++17')
        print('simulator built')
        return 0
    prop = a.property
    cfg = PROPERTIES[prop]
    t0 = time.time()
    bins = [b for b in binaries_of(prop, cfg) if a.only in b[0]]
    if a.replay:
        name = ''
        for line in open(a.replay):
            if line.startswith('binary '):
                name = line.split()[1]
        bins = [b for b in bins if b[0] == name]
        if not bins:
            print('no such binary: ' + name)
            return 3
        exe = build(prop, bins)[name]
        return subprocess.run([exe, '--batch', str(cfg.get('batch', 24)), '--replay', a.replay]).returncode
    try:
        exes = build(prop, bins)
    except BuildError as e:
        print('check cannot be built: %s' % e)
        return 2
    build_s = time.time() - t0
    if a.build:
        print('built in %.1f s' % build_s)
        return 0
    if a.determinism:
        return determinism(exes)
    total = a.time or cfg['time'][a.tier]
    each = total / len(bins)
    jobs = os.cpu_count() or 4
    known = known_findings(prop)
    work = os.path.join(OUT, 'run', prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    kf = os.path.join(work, 'known')
    with open(kf, 'w') as f:
        for pat, _ in known:
            f.write(pat + '\n')
    results, violation, errors, seen = [], None, [], set()
    for name, *_ in bins:
        res = os.path.join(work, name + '.json')
        rep = os.path.join(work, name + '.replay')
        p = subprocess.run([exes[name], '--seed', str(a.seed), '--jobs', str(jobs), '--time', '%.2f' % each,
                            '--batch', str(cfg.get('batch', 24)), '--known', kf, '--out', res, '--replay-out', rep],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        for f in os.listdir(work):
            if f.startswith(name + '.replay.known'):
                seen.update(open(os.path.join(work, f)).read().split('\n'))
        try:
            r = json.load(open(res))
        except (OSError, ValueError):
            errors.append('%s: exit %d: %s' % (name, p.returncode, p.stdout.decode(errors='replace')[-600:]))
            continue
        r['binary'] = name
        results.append(r)
        if r['error']:
            errors.append('%s: %s' % (name, r['error']))
        if r['violation']:
            with open(rep, 'a') as f:
                f.write('binary %s\n' % name)
            # the gate: a fresh process must reproduce it exactly
            q = subprocess.run([exes[name], '--batch', str(cfg.get('batch', 24)), '--replay', rep], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if q.returncode == 1 and b' identical' in q.stdout:
                keep = os.path.join(OUT, 'replays')
                os.makedirs(keep, exist_ok=True)
                dst = os.path.join(keep, '%s-%s.replay' % (prop, name))
                shutil.copy(rep, dst)
                violation = (dst, r['violation'])
                break
            errors.append('%s: violation did not replay: %s' % (name, q.stdout.decode(errors='replace')[-400:]))
    wall = time.time() - t0
    write_evidence(prop, cfg, a, results, violation, errors, seen, known, wall, build_s)
    for pat, text in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    if violation:
        print('%s: %s' % (violation[1]['class'], violation[1]['message']))
        print('VIOLATION property=%s replay=%s' % (prop, violation[0]))
        return 1
    if errors:
        print('check gave no answer: ' + '; '.join(errors))
        return 3
    print('%s held: %d runs, %d steps in %.0f s (build %.0f s)' %
          (prop, sum(r['runs'] for r in results), sum(r['steps'] for r in results), wall, build_s))
    return 0


def determinism(exes):
    """every run hashed in two processes with different environments and core placements"""
    bad = n = 0
    for name, exe in exes.items():
        outs = []
        for env in ({}, {'SIM_NOREEXEC': '1', 'PADDING': 'x' * 3000}):
            e = dict(os.environ)
            e.update(env)
            outs.append(subprocess.run([exe, '--determinism', '300'], stdout=subprocess.PIPE, env=e).stdout.split(b'\n'))
        d = sum(x != y for x, y in zip(*outs))
        n += len(outs[0]) - 1
        bad += d
        print('%s: %d runs, %d differ' % (name, len(outs[0]) - 1, d))
    return 1 if bad or not n else 0


def write_evidence(prop, cfg, a, results, violation, errors, seen, known, wall, build_s):
    def tot(k):
        return sum(r[k] for r in results)
    counters, policies = {}, {}
    for r in results:
        for k, v in r['counters'].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in r['policies'].items():
            policies[k] = policies.get(k, 0) + v
    secs = tot('seconds') or 1
    ev = {
        'property': prop, 'tier': a.tier, 'seed': a.seed, 'level': cfg['level'],
        'coverage': {
            'evaluations': tot('runs'),
            'distinct_nontrivial': tot(cfg.get('distinct', 'distinct_interleavings')),
            'rule': cfg['rule'],
            'samples': ['%s: seeds %d:0..%d, %d scheduling steps, %d context switches' %
                        (r['binary'], a.seed, r['runs'] - 1, r['steps'], r['switches']) for r in results],
            'simulated_runs': tot('runs'),
            'runs_per_hour': int(tot('runs') / secs * 3600),
            'simulated_steps': tot('steps'),
            'context_switches': tot('switches'),
            'distinct_interleavings': tot('distinct_interleavings'),
            'distinct_preemption_sites': tot('distinct_preemption_sites'),
            'distinct_states': tot('distinct_states'),
            'operations_exercised': tot('operations_exercised'),
            'least_exercised_operation_count': min([r['operation_min_count'] for r in results] or [0]),
            'scheduling_policies': policies,
            'faults_and_events': counters,
            'determinism_runs_compared': tot('determinism_runs_compared'),
            'determinism_mismatches': tot('determinism_mismatches'),
            'known_findings_seen': sorted(x for x in seen if x),
            'per_binary': {r['binary']: {k: r[k] for k in ('runs', 'steps', 'switches', 'seconds',
                                                            'distinct_interleavings')} for r in results},
            'build_seconds': round(build_s, 1), 'search_seconds': round(secs, 1),
            'real_code': cfg['real'], 'stubbed': cfg['stub'],
        },
        'assumptions': cfg['assumptions'],
        'wall_s': round(wall, 1),
        'violations': [],
    }
    if violation:
        ev['violations'] = [{'class': violation[1]['class'], 'message': violation[1]['message'],
                             'replay': violation[0]}]
    if errors:
        ev['coverage']['errors'] = errors
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    sys.exit(main())
