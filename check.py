#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] [--only HARNESS] : decide one property on /repo's working tree.

Builds the symbolic executor and, from /repo's current source, the LLVM bitcode of the harnesses together with everything
they reach; executes the harnesses symbolically; replays every counterexample against a native build before reporting it.
Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: no answer (build failure, solver or time limit, ...)."""
import collections, json, os, re, subprocess, sys, threading, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from props import PROPS
T0 = time.time()
prop = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith('-') else os.environ.get('VERIF_TIER', 'quick')
only = sys.argv[sys.argv.index('--only') + 1].split(',') if '--only' in sys.argv else None
P = PROPS[prop]
B = os.environ.get('VERIF_BUILD', V + '/build')
OUT = f'{B}/{prop}'
os.makedirs(OUT, exist_ok=True)
os.makedirs(V + '/evidence', exist_ok=True)
feats = P.get('features', [prop.lower(), 'full'])
ENV = dict(os.environ, BUILD=B)

def run(cmd, log, res, key, **kw):
    with open(log, 'w') as f:
        res[key] = subprocess.call(cmd, stdout=f, stderr=subprocess.STDOUT, env=ENV, **kw)

def fail(msg):
    print(f'NO ANSWER property={prop}: {msg}')
    sys.exit(2)

res = {}
ths = [threading.Thread(target=run, args=(c, f'{OUT}/{k}.log', res, k)) for k, c in {
    'engine': [V + '/engine/build.sh', B + '/engine'],
    'bitcode': [V + '/bc.sh', ','.join(feats), f'{OUT}/h.bc'],
    'native': ['nice', '-n', '15', V + '/native.sh', ','.join(['native'] + feats), f'{OUT}/h.so'],
}.items()]
for t in ths: t.start()
for t in ths[:2]: t.join()
for k in ('engine', 'bitcode'):
    if res[k]:
        print(open(f'{OUT}/{k}.log').read()[-3000:])
        fail(f'{k} build failed')
tb = time.time() - T0

H = P['harnesses']
names = [h for h in H if tier == 'thorough' or not H[h].get('thorough_only')]
names = [h for h in names if not (tier == 'thorough' and H[h].get('quick_only'))]
if only: names = [h for h in H if h in only]
limit = P.get('time', {}).get(tier, 500 if tier == 'quick' else 7200)
cmd = [B + '/engine/symx', '--bc', f'{OUT}/h.bc.d/list', '--out', f'{OUT}/o.jsonl', '-j', '8', '--time', str(limit),
       '--query-ms', str(P.get('query_ms', 60000 if tier == 'quick' else 600000)), '--max-instr', str(P.get('max_instr', 100_000_000))] + names
for attempt in range(2):  # a solver that crashes is asked once more
    with open(f'{OUT}/symx.log', 'w') as f:
        rc = subprocess.call(cmd, stdout=f, stderr=subprocess.STDOUT, env=ENV)
    if rc != 2 or 'a worker process died' not in open(f'{OUT}/o.jsonl').read() or time.time() - T0 > 400: break
ts = time.time() - T0 - tb
ths[2].join()
if res['native']:
    print(open(f'{OUT}/native.log').read()[-3000:])
    fail('native build failed')

stats = {h: collections.Counter() for h in names}; covers = collections.defaultdict(set); funcs = set(); viol = []; errs = []; wit = {}
maxq = 0.0
for line in open(f'{OUT}/o.jsonl'):
    d = json.loads(line)
    h = d['harness']
    if d['kind'] == 'stats':
        for k, v in d.items():
            if isinstance(v, (int, float)): stats[h][k] += v
        stats[h]['processes'] += 1
        maxq = max(maxq, d['max_query_s'])
        covers[h].update(d['covers']); funcs.update(d['functions'])
    elif d['kind'] == 'violation': viol.append(d)
    elif d['kind'] == 'witness': wit.setdefault((h, d['cover']), d)
    else: errs.append(d)
if rc not in (0, 2): errs.append({'harness': '*', 'msg': f'symx ended with {rc}', 'stack': open(f'{OUT}/symx.log').read()[-500:]})

def replay(harness, inputs, path, timeout=45):
    """runs the harness natively on concrete inputs: (outcome, log)"""
    with open(path, 'w') as f:
        for n, w, v in inputs: f.write(f'{n} {int(v, 16):x}\n')
    code = f'import ctypes,os\nl=ctypes.CDLL({f"{OUT}/h.so"!r})\nl.{harness}.restype=None\nl.{harness}()\nos._exit(0)\n'
    try:
        r = subprocess.run([sys.executable, '-c', code], env=dict(os.environ, SYM_INPUTS=path, SYM_TRACE='1', RUST_BACKTRACE='0'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        log = r.stdout.decode(errors='replace')
        if r.returncode == 0: return 'pass', log
        if r.returncode == 40: return 'assume', log
        if r.returncode == 41: return 'check', log
        return f'crash({r.returncode})', log
    except subprocess.TimeoutExpired as e:
        return 'hang', (e.stdout or b'').decode(errors='replace')

known = []
for l in open(V + '/known_findings.jsonl') if os.path.exists(V + '/known_findings.jsonl') else []:
    if l.strip() and not l.startswith('fixed:'): known.append(json.loads(l))

RD = f'{V}/replay'; os.makedirs(RD, exist_ok=True)
reported = []; seenk = set(); unconf = []; knownhit = {}
seen = set(); TR = time.time()
for n, v in enumerate(sorted(viol, key=lambda v: v['type'] == 'hang')):
    key = (v['harness'], v['type']) if v['type'] == 'hang' else (v['harness'], v['type'], v['msg'], v['where'], v['note'])
    if key in seen: continue
    if reported and time.time() - TR > 90: break # one confirmed violation decides the verdict
    seen.add(key)
    path = f'{RD}/{prop}-{len(seen)}.txt'
    o, log = replay(v['harness'], v['inputs'], path)
    ok = o == 'check' or o.startswith('crash') or o == 'hang'
    if v['type'] == 'hang' and o != 'hang': ok = False
    if v['type'] == 'check' and (o != 'check' or f'check failed: {v["msg"]}' not in log): ok = o.startswith('crash') or (o == 'check')
    kf = next((k for k in known if k['property'] == prop and k['harness'] == v['harness'] and k['type'] == v['type'] and re.fullmatch(k['msg'], v['msg']) and re.fullmatch(k.get('where', '.*'), v['where']) and re.fullmatch(k.get('note', '.*'), v['note'])), None)
    with open(path, 'a') as f:
        pass
    with open(path + '.info', 'w') as f:
        f.write(json.dumps({k: v[k] for k in ('harness', 'type', 'msg', 'where', 'note', 'stack', 'inputs')}, indent=1) + f'\nreplay: {o}\n{log}\n')
    if not ok: unconf.append((v, o)); continue
    if kf: knownhit.setdefault(kf['id'], kf); continue
    reported.append((v, path, o))

validated = 0; samples = []; badwit = []
byh = collections.Counter()
for (h, c), d in sorted(wit.items()):
    byh[h] += 1
    if tier == 'quick' and byh[h] > 6 or reported and time.time() - TR > 90: continue
    o, log = replay(h, d['inputs'], f'{OUT}/wit.txt')
    if f'COVER {c}' in log and (o in ('pass', 'assume') or reported or knownhit): validated += 1
    else: badwit.append((h, c, o, log[-300:], d['inputs']))
    if len(samples) < 12: samples.append({'harness': h, 'reached': c, 'inputs': [f'{a}={v}' for a, w, v in d['inputs']][:24], 'native': o})

missing = [(h, c) for h in names for c in H[h].get('covers', []) if c not in covers[h]]
tot = collections.Counter()
for h in names: tot.update(stats[h])
try:
    dem = subprocess.run(['c++filt'], input='\n'.join(sorted(funcs)), capture_output=True, text=True).stdout.split('\n')
except OSError: dem = sorted(funcs)
encoded = sorted({re.sub(r'\[[0-9a-f]{8,}\]', '', d) for d in dem if 'tinywasm' in d and 'twharness' not in d})
ev = {
    'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
    'coverage': {
        'states': tot['paths'], 'transitions': tot['instr'], 'traces_validated_against_impl': validated,
        'samples': samples, 'explanation': 'states = symbolic paths explored to their end; transitions = LLVM instructions executed symbolically; every path stands for all input values that satisfy its path condition.',
        'bounds': P['bounds'], 'harnesses': {h: {k: stats[h][k] for k in ('paths', 'checks', 'checks_trivial', 'queries', 'sat', 'unsat', 'cache_hits', 'errors')} | {'wall_cpu_s': round(stats[h]['wall_s'], 2), 'solver_s': round(stats[h]['solver_s'], 2), 'covers': sorted(covers[h])} for h in names},
        'assertions_decided': tot['checks'], 'assertions_decided_by_rewriting': tot['checks_trivial'], 'solver_queries': tot['queries'], 'solver_unsat': tot['unsat'], 'solver_sat': tot['sat'], 'solver_s': round(tot['solver_s'], 2), 'slowest_query_s': maxq,
        'functions_encoded': len(funcs), 'functions_encoded_of_tinywasm': len(encoded), 'tinywasm_functions': encoded[:400],
        'build_s': round(tb, 1), 'symbolic_s': round(ts, 1), 'known_findings_seen': sorted(knownhit),
    },
    'assumptions': P.get('assumptions', []) + ['rustc and LLVM produce the bitcode that is executed (release optimisation level 2, overflow checks and debug assertions kept)', 'the symbolic executor in /verif/engine and z3/cvc5 are correct; counterexamples and witnesses are replayed natively'],
    'wall_s': round(time.time() - T0, 1), 'violations': len(reported),
}
json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)

for kf in knownhit.values(): print(f'KNOWN-FINDING: property={prop} {kf["what"]}')
for v, path, o in reported:
    print(f'{v["harness"]}: {v["type"]}: {v["msg"]} {v["where"]} {v["note"]} [{o}]\n   inputs: ' + ' '.join(f'{a}={x}' for a, w, x in v['inputs'][:40]))
    print(f'VIOLATION property={prop} replay={path}')
print(f'{prop} {tier}: {tot["paths"]} paths, {tot["checks"]} assertions, {tot["queries"]} queries ({tot["unsat"]} unsat), solver {tot["solver_s"]:.1f} s; build {tb:.0f} s, symbolic {ts:.0f} s, total {time.time()-T0:.0f} s; {validated} witnesses replayed')
if '-v' in sys.argv:
    for h in names: print('  ', h, dict(stats[h]), sorted(covers[h]))
if reported: sys.exit(1)
for v, o in unconf: print('UNCONFIRMED counterexample:', v['harness'], v['type'], v['msg'], v['where'], v['note'], '-> native', o, v['stack'][:600])
for e in errs: print('ERROR:', e['harness'], e['msg'], e.get('stack', '')[:800])
for b in badwit: print('WITNESS not reproduced natively:', *b)
if unconf or errs or badwit: fail('see above')
if missing: fail(f'not reached: {missing}')
nopath = [h for h in names if not stats[h]['paths'] or not stats[h]['checks']]
if nopath: fail(f'nothing explored: {nopath}')
print(f'OK property={prop}')
