#!/usr/bin/env python3
"""Decides one property by symbolic execution of /repo's current code: run.py <Cxx> [quick|thorough]."""
import json, os, shutil, signal, subprocess, sys, threading, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
import vfbuild as B
import checks
from concurrent.futures import ThreadPoolExecutor

PROP = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
HARD = 780 if TIER == 'quick' else 6 * 3600   # wall budget of the whole check
OUTD = os.path.join(B.BUILD, 'out', PROP)
EVD = os.environ.get('VF_EV') or os.path.join(B.VERIF, 'evidence')
KNOWN = os.path.join(B.VERIF, 'known-findings.txt')


def short(s, n=3 if os.environ.get('VF_V') else 2):
    return ' <- '.join(l.strip()[:200] for l in s.split('\n')[:n])


def load_known():
    """lines `known: property=Cxx key=<key> -- description`; a violation is suppressed only when its exact key is listed"""
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('known: property=' + PROP + ' key='):
                body = l.split(' key=', 1)[1]
                k, _, d = body.partition(' -- ')
                r[k.strip()] = d
    return r


def ckey(j, p):
    return '%s|%s|%s' % (j.get('name') or os.path.splitext(j['src'])[0], ' '.join(j.get('flags', [])), ','.join(map(str, p)))


def main():
    spec = checks.CHECKS[PROP]
    jobs = [j for j in spec['jobs'] if TIER == 'thorough' or not j.get('thorough')]
    only = os.environ.get('VF_ONLY')
    if only:
        jobs = [j for j in jobs if only in j['src']]
    pool = ThreadPoolExecutor(8)
    bpool = ThreadPoolExecutor(8)
    shutil.rmtree(OUTD, ignore_errors=True)
    os.makedirs(OUTD)
    os.makedirs(EVD, exist_ok=True)
    fm = pool.submit(B.model)
    eng = B.engine()
    libs = {}
    for v in sorted(set(j.get('variant', 'real') for j in jobs)):
        libs[v] = B.library(v, bpool)
    mdl = fm.result()
    built = {}
    for j in jobs:
        k = (j['src'], j.get('variant', 'real'), tuple(j.get('defs', ())), j.get('name'))
        j['_k'] = k
        if k not in built:
            built[k] = bpool.submit(B.harness, B.VERIF + '/harness/' + j['src'], k[1], libs[k[1]], mdl, k[2], k[3])
    tasks = []
    for j in jobs:
        ps = j.get('params', [()])
        if TIER == 'thorough':
            ps = list(ps) + [p for p in j.get('tparams', []) if p not in ps]
        for p in ps:
            tasks.append((j, tuple(p)))
    costs = {}
    try:
        costs = json.load(open(B.VERIF + '/lib/costs.json')).get(PROP, {})
    except OSError:
        pass
    cost = lambda t: costs.get(ckey(*t), 0.5)
    tasks.sort(key=cost, reverse=True)     # longest first
    planned = len(tasks)
    if TIER == 'quick' and not only:       # the most expensive configurations beyond the quick budget are left to the thorough tier
        total = sum(map(cost, tasks))
        while tasks and total > spec.get('qbudget', 1100):
            total -= cost(tasks.pop(0))
    stop = threading.Event()
    procs = set()
    plock = threading.Lock()
    deadline = T0 + HARD
    results = []

    def one(idx, j, p):
        if stop.is_set():
            return None
        full, prep = built[j['_k']].result()
        rd = os.path.join(OUTD, 'j%04d' % idx)
        os.makedirs(rd)
        out = rd + '/out.json'
        left = deadline - time.time()
        if left < 5:
            return dict(job=j, params=p, skipped=True)
        tmo = min(j.get('timeout', 300 if TIER == 'quick' else 3600), left)
        flags = list(j.get('flags', []))
        if TIER == 'thorough':
            flags += j.get('tflags', [])
        if 'mem' not in j:
            flags += ['--mem', '3500']
        else:
            flags += ['--mem', str(j['mem'])]
        cmd = [eng, full] + flags + ['--timeout', '%d' % tmo, '--out', out, '--replays', rd]
        for x in p:
            cmd += ['--param', str(x)]
        t = time.time()
        pr = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        with plock:
            procs.add(pr)
        try:
            so, _ = pr.communicate(timeout=tmo + 60)
        except subprocess.TimeoutExpired:
            os.killpg(pr.pid, signal.SIGKILL)
            so, _ = pr.communicate()
        with plock:
            procs.discard(pr)
        r = dict(job=j, params=p, cmd=' '.join(cmd), rc=pr.returncode, wall=time.time() - t, dir=rd)
        try:
            r['out'] = json.load(open(out))
        except Exception:
            r['out'] = None
            r['err'] = so[-2000:]
        return r

    known = load_known()
    bad, knownhit, incon = [], {}, []
    builderr = None
    futs = [pool.submit(one, i, j, p) for i, (j, p) in enumerate(tasks)]
    for f in futs:
        try:
            r = f.result()
        except B.BuildError as e:
            if builderr is None:
                builderr = str(e)
            continue
        if r is None:
            continue
        results.append(r)
        hn = r['job'].get('name') or os.path.splitext(r['job']['src'])[0]
        tag = '%s[%s]' % (hn, ','.join(map(str, r['params'])))
        r['tag'] = tag
        o = r.get('out')
        if r.get('skipped'):
            incon.append(tag + ': skipped, check budget used up')
            continue
        if o is None:
            if not stop.is_set():
                incon.append('%s: executor ended with %s %s' % (tag, r['rc'], r.get('err', '')[-300:]))
            continue
        for v in o['violations']:
            if not v['replay_verdict']:
                incon.append('%s: counterexample did not replay: %s' % (tag, v['msg']))
                continue
            key = '%s:%s:%s' % (tag, v['kind'], v['msg'])
            if key in known:
                knownhit[key] = known[key]
            else:
                bad.append((tag, key, v, r))
        if not o['complete']:
            incon.append('%s: %s' % (tag, short(o['incomplete_why'])))
        elif o['inconclusive']:
            incon.append('%s: %s' % (tag, short(o['inconclusive'])))
        if not o['violations']:
            for need in r['job'].get('reach', ['end']):
                if need not in o['reached'] and o['complete'] and not o['inconclusive']:
                    incon.append('%s: vacuous, label %r never reached' % (tag, need))
        if os.environ.get('VF_V'):
            print('%-40s %7.1fs states=%d trans=%d finals=%d viol=%d %s %s' % (tag, r['wall'], o['states'], o['transitions'], o['finals'], len(o['violations']), '' if o['complete'] else 'INCOMPLETE ' + short(o['incomplete_why']), short(o['inconclusive'])), flush=True)
            for v in o['violations']:
                print('    %s | %s | %s | %s' % (v['kind'], v['msg'], short(v['loc']), v['replay_verdict']), flush=True)
        if bad and not os.environ.get('VF_KEEPGOING'):
            stop.set()
            with plock:
                for q in procs:
                    try:
                        os.killpg(q.pid, signal.SIGKILL)
                    except OSError:
                        pass
    pool.shutdown(wait=True)
    if os.environ.get('VF_COSTS'):          # development: remember what each configuration costs
        f = B.VERIF + '/lib/costs.json'
        allc = json.load(open(f)) if os.path.exists(f) else {}
        c = allc.setdefault(PROP, {})
        for r in results:
            if r.get('wall') and not bad:
                c[ckey(r['job'], r['params'])] = round(r['wall'], 1) if r.get('out') and r['out']['complete'] and not r['out']['inconclusive'] else 999.0
        for k in [k for k, v in c.items() if v < 1.5]:
            del c[k]
        json.dump(allc, open(f, 'w'), indent=0, sort_keys=True)
    evidence(spec, tasks, planned, results, bad, knownhit, incon, builderr)
    for k, d in sorted(knownhit.items()):
        print('KNOWN-FINDING: property=%s %s -- %s' % (PROP, k, d))
    for s in incon:
        print('INCONCLUSIVE:', s)
    seen = set()
    for n, (tag, key, v, r) in enumerate(bad):
        if key in seen:
            continue
        seen.add(key)
        path = os.path.join(EVD, '%s-replay-%d.txt' % (PROP, len(seen)))
        with open(path, 'w') as f:
            f.write('property %s\nharness %s (harness/%s)\nkind %s\nmessage %s\nat %s\nreplay verdict (concrete re-execution): %s\ncommand %s\n\n' % (PROP, tag, r['job']['src'], v['kind'], v['msg'], v['loc'], v['replay_verdict'], r['cmd']))
            if v['trace'] and os.path.exists(v['trace']):
                f.write(open(v['trace']).read())
        print('  %s: %s: %s at %s' % (tag, v['kind'], v['msg'], short(v['loc'])))
        print('VIOLATION property=%s replay=%s' % (PROP, path))
    if bad:
        return 1
    if builderr:
        print(builderr)
        print('ERROR: the code could not be encoded')
        return 2
    print('%s %s: held on everything explored; %d configurations, %d inconclusive, %.1f s' % (PROP, TIER, len(results), len(incon), time.time() - T0))
    return 0


def evidence(spec, tasks, planned, results, bad, knownhit, incon, builderr):
    S = lambda k: sum(r['out'][k] for r in results if r.get('out'))
    fns = set()
    for r in results:
        if r.get('out'):
            fns.update(r['out']['functions'])
    samples = []
    validated = 0
    for r in results:
        o = r.get('out')
        if not o:
            continue
        validated += r.get('native', 0)
        for w in o['witnesses'][:1]:
            if len(samples) < 12 and w['trace'] and os.path.exists(w['trace']):
                samples.append({'harness': r['tag'], 'schedule': [l.strip() for l in open(w['trace']) if l[0] in 'IE'][:120]})
    allex = not incon and not bad and not builderr and all(r.get('out') and r['out']['complete'] for r in results)
    cov = {
        'states': S('states'), 'transitions': S('transitions'), 'traces_validated_against_impl': validated, 'samples': samples,
        'exhaustive': bool(allex), 'configurations': len(results), 'configurations_planned': len(tasks), 'configurations_left_to_thorough': planned - len(tasks),
        'functions_encoded': sorted(fns), 'bounds': spec['bounds'],
        'queries': S('queries'), 'queries_sat': S('sat'), 'queries_unsat': S('unsat'), 'queries_unknown': S('unknown'), 'solver_seconds': round(S('solver_secs'), 3),
        'final_state_sets': S('finals'), 'assertions_checked': S('asserts'), 'symbolic_assertions': S('assert_symbolic'), 'merges': S('merges'), 'instructions_encoded': S('instrs'),
        'counterexamples_replayed_concretely': sum(1 for r in results if r.get('out') for v in r['out']['violations'] if v['replay_verdict']),
        'witness_schedules_replayed_concretely': sum(len(r['out']['witnesses']) for r in results if r.get('out')),
        'inconclusive': incon, 'known_findings': sorted(knownhit),
        'per_configuration': [{'harness': r['tag'], 'variant': r['job'].get('variant', 'real'), 'secs': round(r.get('wall', 0), 2), 'states': r['out']['states'], 'queries': r['out']['queries'], 'complete': r['out']['complete'], 'reached': r['out']['reached']} for r in results if r.get('out')],
    }
    ev = {'property': PROP, 'tier': TIER, 'seed': SEED, 'level': 'model_checking', 'coverage': cov, 'assumptions': checks.ASSUME + spec.get('assume', []), 'wall_s': round(time.time() - T0, 2), 'violations': len(bad)}
    with open(os.path.join(EVD, PROP + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    sys.exit(main())
