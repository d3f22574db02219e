#!/usr/bin/env python3
"""Run the model-checking harnesses of one property against /repo.

usage: check.py PROPERTY quick|thorough

Builds libtpie out of /repo's working tree (nothing is written there), builds
the harness, explores, writes evidence/PROPERTY.json and prints VIOLATION or
KNOWN-FINDING lines.  Exit 0: held on everything explored, 1: violated,
2: could not be decided (e.g. /repo does not compile).
"""
import concurrent.futures
import fcntl
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('MC_REPO', '/repo')
BUILD = os.environ.get('MC_BUILD', os.path.join(VERIF, 'build'))

sys.path.insert(0, HERE)
from registry import PROPERTIES, EXES, ASSUMPTIONS  # noqa: E402

CXX = '/usr/bin/g++'
FLAVORS = {
    # code under test exactly as configured for release, cheaper optimisation
    'plain': dict(flags='-O1 -g1 -DNDEBUG', link=[]),
    # every access outside an object ends the execution
    'asan': dict(flags='-O1 -g1 -DNDEBUG -fsanitize=address', link=['-fsanitize=address']),
    # memory accesses and atomics reported to mc/sched.cpp
    'mt': dict(flags='-O1 -g1 -DNDEBUG -fsanitize=thread -Wno-tsan',
               link=['-Wl,--wrap=memcpy', '-Wl,--wrap=memmove', '-Wl,--wrap=memset']),
}
CORE = ['mc', 'sched', 'io', 'clock']
CORE_FLAGS = ['-O2', '-g1', '-fno-builtin']


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-8000:]))
    return p.stdout


def newer(target, *sources):
    if not os.path.exists(target):
        return False
    t = os.path.getmtime(target)
    return all(os.path.exists(s) and os.path.getmtime(s) <= t for s in sources)


def deps_ok(obj, stamp):
    """Up to date according to the dependency file g++ wrote, and same command."""
    d = obj + '.d'
    if not os.path.exists(obj) or not os.path.exists(d):
        return False
    try:
        if open(obj + '.cmd').read() != stamp:
            return False
    except OSError:
        return False
    text = open(d).read().replace('\\\n', ' ')
    files = text.split(':', 1)[1].split()
    return newer(obj, *files)


def compile_obj(src, obj, flags):
    cmd = [CXX, '-std=gnu++17'] + flags + ['-MD', '-MF', obj + '.d', '-c', src, '-o', obj]
    stamp = ' '.join(cmd)
    if deps_ok(obj, stamp):
        return
    run(cmd)
    open(obj + '.cmd', 'w').write(stamp)


def configure(flavor):
    d = os.path.join(BUILD, flavor)
    os.makedirs(d, exist_ok=True)
    env = dict(os.environ, CC='/usr/bin/gcc', CXX=CXX, LC_ALL='C.UTF-8')
    for k in ('CFLAGS', 'CXXFLAGS', 'CPPFLAGS', 'LDFLAGS'):
        env.pop(k, None)
    run(['cmake', '-S', REPO, '-B', d, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=Release',
         '-DCMAKE_CXX_FLAGS_RELEASE=' + FLAVORS[flavor]['flags'],
         '-DCMAKE_C_FLAGS_RELEASE=' + FLAVORS[flavor]['flags'],
         '-DCMAKE_CXX_STANDARD=17', '-DTPIE_USE_GIT_COMMIT=OFF', '-DTPL_LOGGING=ON',
         '-DTPIE_PARALLEL_SORT=ON', '-DTPIE_USE_SNAPPY=ON', '-DTPIE_USE_LZ4=ON',
         '-DTPIE_USE_ZSTD=ON', '-DCOMPILE_TEST=OFF', '-Wno-dev'], env=env)
    return d, env


def build(exes):
    """Builds libraries and harnesses; returns {exe: path}."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    out = {}
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        flavors = sorted({EXES[e]['flavor'] for e in exes})
        dirs = dict(zip(flavors, pool.map(configure, flavors)))
        jobs = []
        for f in flavors:
            d, env = dirs[f]
            jobs.append(pool.submit(run, ['ninja', '-C', d, 'tpie'], env=env))
        mc = os.path.join(BUILD, 'mc')
        os.makedirs(mc, exist_ok=True)
        for c in CORE:
            jobs.append(pool.submit(compile_obj, os.path.join(VERIF, 'mc', c + '.cpp'), os.path.join(mc, c + '.o'),
                                    CORE_FLAGS))
        for e in exes:
            x = EXES[e]
            f = x['flavor']
            d = dirs[f][0]
            os.makedirs(os.path.join(d, 'harness'), exist_ok=True)
            flags = FLAVORS[f]['flags'].split() + ['-w', '-D_FILE_OFFSET_BITS=64', '-I' + d, '-I' + REPO] + x.get('flags', [])
            jobs.append(pool.submit(compile_obj, os.path.join(VERIF, 'harness', x['source'] + '.cpp'),
                                    os.path.join(d, 'harness', e + '.o'), flags))
        errors = []
        for j in jobs:
            try:
                j.result()
            except BuildError as err:
                errors.append(err)
        if errors:
            raise errors[0]
        for e in exes:
            f = EXES[e]['flavor']
            d = dirs[f][0]
            exe = os.path.join(d, 'harness', e)
            obj = exe + '.o'
            lib = os.path.join(d, 'tpie', 'libtpie.a')
            core = [os.path.join(mc, c + '.o') for c in CORE]
            if not newer(exe, obj, lib, *core):
                run([CXX, '-rdynamic', '-o', exe, obj] + core + FLAVORS[f]['link'] +
                    [lib, '-lsnappy', '-llz4', '-lzstd', '-ldl'])
            out[e] = exe
    lock.close()
    return out


def known_findings(prop):
    path = os.path.join(VERIF, 'known-findings.json')
    try:
        data = json.load(open(path))
    except OSError:
        return []
    return [f for f in data.get('findings', []) if f['property'] == prop]


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = PROPERTIES[prop]
    budget = float(os.environ.get('MC_BUDGET', '840' if tier == 'quick' else '14000'))
    exes = [e for e in spec['exes']]
    try:
        paths = build(exes)
    except BuildError as err:
        print('check.py: build failed\n' + str(err))
        return 2
    t_build = time.time() - t0
    work = os.path.join(BUILD, 'out-' + prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    findings = known_findings(prop)
    suites, violations, errors, seen = [], [], [], {}
    for i, e in enumerate(exes):
        known = os.path.join(work, e + '.known')
        with open(known, 'w') as f:
            for k in findings:
                f.write(k['match'] + '\n')
        out = os.path.join(work, e + '.json')
        left = budget - (time.time() - t0)
        deadline = max(20, left / (len(exes) - i) if i + 1 < len(exes) else left)
        cmd = [paths[e], '--tier', tier, '--out', out, '--replay-dir', work, '--known', known,
               '--deadline', '%d' % deadline, '--jobs', str(min(8, os.cpu_count() or 8))]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        sys.stdout.write(p.stdout)
        if p.returncode not in (0, 1) or not os.path.exists(out):
            errors.append('%s ended with status %d' % (e, p.returncode))
            continue
        r = json.load(open(out))
        suites += [dict(s, exe=e) for s in r['suites']]
        violations += [dict(v, exe=e) for v in r['violations']]
        for s in r['suites']:
            for k, n in s['known'].items():
                seen[(s['name'], k)] = seen.get((s['name'], k), 0) + n
        if violations:
            break

    for f in findings:
        s, k = f['match'].split(':', 1)
        hits = sum(n for (sn, kk), n in seen.items() if kk == k and s in ('*', sn))
        if hits:
            print('KNOWN-FINDING: property=%s %s (%d executions)' % (prop, f['what'], hits))

    total = lambda k: sum(s[k] for s in suites)
    samples = []
    for s in suites:
        for t in s['samples'][:1]:
            samples.append({'suite': s['name'], 'execution': t.split('\n')[:40]})
    if not samples:
        samples = [{'suite': s['name'], 'what': s['what']} for s in suites[:3]]
    if not samples:
        samples = [{'violation': v['msg']} for v in violations[:3]]
    coverage = {
        'states': total('states'),
        'transitions': total('transitions'),
        'traces_validated_against_impl': total('executions'),
        'evaluations': total('executions') + total('abandoned'),
        'distinct_nontrivial': total('outcomes'),
        'rule': 'every execution is one complete run of the real code under one combination of answers to the choices '
                'listed per suite, all combinations within the bounds are run (equivalent schedules only once); '
                'distinct_nontrivial counts distinct final outcomes, states counts distinct states of the reference '
                'model or of the happens-before order',
        'exhaustive': bool(suites) and all(s['exhaustive'] for s in suites) and not errors,
        'samples': samples[:8],
        'suites': [{k: s[k] for k in ('name', 'what', 'executions', 'transitions', 'states', 'outcomes',
                                      'redundant_prefixes', 'max_choices', 'exhaustive', 'wall_s', 'counters', 'known')}
                   for s in suites],
        'build_s': round(t_build, 1),
    }
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': coverage,
        'assumptions': ASSUMPTIONS + spec.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    for v in violations:
        print('%s [%s] %s' % (v['suite'], v['key'], v['msg']))
        print('VIOLATION property=%s replay=%s' % (prop, v['replay']))
    for e in errors:
        print('check.py: ' + e)
    if violations:
        return 1
    return 2 if errors else 0


if __name__ == '__main__':
    sys.exit(main())
