#!/usr/bin/env python3
"""Writes MANIFEST.json: claims every property that has a scenario."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
have = set()
for f in glob.glob(V + '/scen/*.cpp'):
    have |= set(re.findall(r'^SCENARIO \(\w+, "(\w+)"', open(f).read(), re.M))
NA = {
    'X01': 'single-threaded pure function of its input: no concurrency, time, I/O or other party for a simulator to schedule or fail; simulation would only be input fuzzing',
    'X02': 'single-threaded pure function of its input: nothing for a deterministic simulator to schedule or fail',
    'X03': 'single-threaded pure function of its input: nothing for a deterministic simulator to schedule or fail',
    'X04': 'single-threaded pure function of its input: nothing for a deterministic simulator to schedule or fail',
    'X05': 'single-threaded data structure semantics: no schedule, clock, I/O or fault can influence them (sharing and lifetime are decided by D01-D03)',
    'X06': 'single-threaded pure functions: no schedule, clock, I/O or fault can influence them (agreement of concurrent readers is decided by D02)',
}
NOTES = json.load(open(V + '/tools/notes.json'))
have |= {'R01', 'R02', 'R03'} # judged over the scenarios of several properties (sim/runner.cpp)
FAULTY = {'K04', 'L04', 'F01', 'F02', 'F03', 'F04', 'H01', 'U01', 'K02'}
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif i in have:
        checks.append({
            'property': i,
            'quick_cmd': 'python3 tools/check.py %s quick' % i,
            'thorough_cmd': 'python3 tools/check.py %s thorough' % i,
            'technique': 'deterministic simulation with seeded fault injection',
            'level': 'exploration',
            'level_note': NOTES.get(i, '') + ' Seeded search over schedules, delays and faults of the real code in a single-process simulator; no exhaustiveness claim. Trusts the '
                          'simulator (pthread, clock, file and heap stand-ins) and assumes sequentially consistent memory and successful allocation.',
        })
    else:
        na.append({'property': i, 'reason': 'not claimed yet: the scenario for it is still being built'})
json.dump({'version': 1, 'setup_cmd': 'python3 tools/build.py', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the simulator compiles the unmodified sources with gcc thread-sanitizer instrumentation and redirects library calls with objcopy.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
