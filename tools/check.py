#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property by seeded simulation.

Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: error of the machinery.
"""
import json, os, re, subprocess, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
REAL = ('real code: every library source (data, json, cbor, yaml, xml, logger, scheduler, thread, threadpool, time, component, container, config, store, file, '
        'uuid, queue, util, hash, base64), compiled from the working tree of /repo in a debug (asserts) and a release (NDEBUG) variant, and libyaml')
STUB = ('simulated: pthread threads, mutexes, condition variables, read-write locks; clocks, sleeping; memory allocator (checked heap, never reuses memory); '
        'files, directories, fsync, rename, crash and power loss; sockets; getrandom; dlopen; environment; console streams')


def known_findings():
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r'known: property=(\w+) scenario=(\S+) class=(\S+) match="([^"]*)" (.*)', l)
            if m:
                out.append(m.groups())
    return out


def symbolise(exe, path):
    txt = open(path).read()
    m = re.search(r'^pcs (.*)$', txt, re.M)
    pcs = [p for p in m.group(1).split() if p != '0x0'] if m else []
    addrs = pcs + ['0x' + a for a in re.findall(r'[@<]([0-9a-f]{5,12})\b', (re.search(r'^message (.*)$', txt, re.M) or [None, ''])[1])]
    if not addrs:
        return
    try:
        o = subprocess.run(['addr2line', '-f', '-s', '-e', exe] + addrs, stdout=subprocess.PIPE, text=True, timeout=30).stdout.splitlines()
        with open(path, 'a') as f:
            for i, a in enumerate(addrs):
                f.write('# %s %s %s\n' % (a, o[2 * i], o[2 * i + 1]))
    except Exception:
        pass


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    try:
        exes = B.build()
    except B.BuildError as e:
        print('ERROR: build failed: %s' % e)
        return 2
    tb = time.time() - t0
    spec = json.load(open(os.path.join(VERIF, 'tools', 'budget.json')))
    secs = float(os.environ.get('SIM_SECS', spec.get(prop, {}).get(tier, spec['default'][tier])))
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    known = [k for k in known_findings() if k[0] == prop]
    kf = os.path.join(B.B, 'known-%s-%d.txt' % (prop, os.getpid()))
    with open(kf, 'w') as f:
        for k in known:
            f.write('%s|%s|%s\n' % k[1:4])
    lst = subprocess.run([exes['d'], 'list'], stdout=subprocess.PIPE, text=True).stdout.split('\n')
    vs = [v for v in 'dr' if any(l.split()[0] == prop and v in l.split()[2] for l in lst if l)]
    if not vs:
        print('ERROR: no scenario for %s' % prop)
        return 2
    stats, violation, error = {}, None, None
    for n, v in enumerate(vs):
        out = os.path.join(B.B, 'out-%s-%s-%d.json' % (prop, v, os.getpid()))
        env = dict(os.environ, SIM_VARIANT=v)
        cmd = [exes[v], 'run', '--prop', prop, '--runs', '1000000000', '--secs', '%.1f' % (secs / len(vs)), '--seed', str(seed * 1000 + n),
               '--workers', '8', '--out', out, '--rdir', rdir, '--known', kf, '--samples', '2', '--min-secs', '12']
        r = subprocess.run(cmd, env=env)
        try:
            s = json.load(open(out))
            os.unlink(out)
        except Exception as e:
            error = 'simulator produced no result (exit %s): %s' % (r.returncode, e)
            break
        stats[v] = s
        if 'fail' in s:
            path = s['fail']['file']
            rep = subprocess.run([exes[v], 'replay', path], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            if rep.returncode == 1 and 'identical' in rep.stdout:
                symbolise(exes[v], path)
                violation = (v, path, s['fail'])
                break
            error = 'replay of %s in a fresh process did not reproduce: %s' % (path, rep.stdout[:500])
            break
        if 'error' in s or r.returncode == 2:
            error = s.get('error', 'worker failure')
            break
    os.unlink(kf)
    wall = time.time() - t0
    tot = lambda k: sum(s.get(k, 0) for s in stats.values())
    merge = {}
    for s in stats.values():
        for k, c in s.get('faults', {}).items():
            merge[k] = merge.get(k, 0) + c
    probes = {}
    for s in stats.values():
        for k, c in s.get('probes', {}).items():
            a = probes.setdefault(k, [0, 0])
            a[0] += c[0]
            a[1] += c[1]
    sim_wall = sum(s.get('wall', 0) for s in stats.values()) or 1e-9
    level = spec.get(prop, {}).get('level', 'exploration')
    samples = [x for s in stats.values() for x in s.get('samples', [])]
    if violation:
        samples.append({'violation': violation[2]['class'], 'message': violation[2]['message'], 'replay': violation[1]})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'evaluations': tot('runs'),
            'distinct_nontrivial': tot('distinct_interleavings'),
            'rule': 'one evaluation is one simulated run: workload, schedule, delays and faults all drawn from one seed. Distinct and non-trivial: runs with at least one '
                    'injected fault, stall or preemption, or at least four context switches, counted by distinct hash of the order of all synchronisation events and context switches',
            'samples': samples or [{'note': 'no run completed'}],
            'scenarios': {v: s.get('scenarios', {}) for v, s in stats.items()},
            'seeds_per_hour': int(tot('runs') / sim_wall * 3600),
            'simulated_seconds': round(tot('simtime_s'), 3),
            'simulated_seconds_per_wall_second': round(tot('simtime_s') / sim_wall, 1),
            'instrumented_steps': tot('steps'),
            'synchronisation_events': tot('sync_points'),
            'context_switches': tot('switches'),
            'abstract_states_reached': tot('distinct_states'),
            'faults_injected': merge,
            'runs_with_faults': tot('faulty_runs'),
            'coverage_probes_hits_and_runs': probes,
            'determinism_reruns': tot('determinism_checks'),
            'trace_replays_checked': tot('replay_checks'),
            'known_finding_hits': tot('known_hits'),
            'real_components': REAL, 'simulated_components': STUB,
            'build_s': round(tb, 1),
        },
        'assumptions': [
            'sequentially consistent memory: threads interleave at every instrumented memory access, atomic and library call; weaker hardware orderings are not simulated (R01-R03 decide freedom from data races, without which no program could observe them)',
            'memory allocation never fails (the library does not claim to survive it)',
            'search is seeded sampling, not exhaustive',
        ],
        'wall_s': round(wall, 2),
        'violations': 1 if violation else 0,
    }
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k[4]))
    if violation:
        v, path, fl = violation
        print('%s variant, class %s: %s' % ('debug' if v == 'd' else 'release', fl['class'], fl['message']))
        print(open(path).read()[-1500:])
        print('replay with: SIM_VARIANT=%s %s replay %s' % (v, exes[v], path))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if error:
        print('ERROR: %s' % error)
        return 2
    print('property %s held: %d runs, %d distinct interleavings, %.0f simulated seconds, %.1f s' % (prop, tot('runs'), tot('distinct_interleavings'), tot('simtime_s'), wall))
    return 0


if __name__ == '__main__':
    sys.exit(main())
