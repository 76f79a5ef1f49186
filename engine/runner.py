"""runs the jobs of one property, reports violations, writes the evidence file"""
import sys, os, time, json, traceback, collections, signal
import multiprocessing as mp
import build, dom
from build import CURVES, VERIF
from x86 import Image
import plan
EVID = os.path.join(VERIF, 'evidence')
G = {}        # per process: images, engines, deadline

def worker_init(deadline):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    G['deadline'] = deadline; G['eng'] = {}
    sys.setrecursionlimit(20000)

def run_job(job):
    """job: (function name in plan's job table, parameters) -> (job, [obligation dicts], info)"""
    t0 = time.time(); q0 = (dom.Stats.queries, dom.Stats.unsat, dom.Stats.time)
    try: obs, info = plan.JOBS[job[0]](G, *job[1:])
    except Exception as e:
        obs = [dict(name='%s %s' % (job[0], ' '.join(map(str, job[1:]))), ok=False, detail='verifier limit: ' + ''.join(traceback.format_exc()[-800:]), kind='limit')]
        info = {}
    info['seconds'] = time.time() - t0
    info['queries'] = dom.Stats.queries - q0[0]; info['unsat'] = dom.Stats.unsat - q0[1]; info['solver_s'] = dom.Stats.time - q0[2]
    return job, obs, info

def known(prop):
    f = os.path.join(VERIF, 'known_findings.txt'); out = []
    if os.path.exists(f):
        for l in open(f):
            if l.startswith('finding: property=%s ' % prop): out.append(l.strip()[len('finding: '):])
    return out

def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    limit = 700 if tier == 'quick' else 6 * 3600
    deadline = t0 + limit
    os.makedirs(EVID, exist_ok=True)
    try: P = plan.prepare(prop, tier, G, seed)
    except build.BuildError as e:
        print('cannot build /repo with the checks: %s' % e); return 2
    jobs = P['jobs']
    n = ok = 0; bad = []; kinds = collections.Counter(); info = collections.Counter(); fns = collections.Counter(); extra = {}
    found = None
    ncpu = min(8, os.cpu_count() or 1)
    tried = {}
    with mp.Pool(ncpu, worker_init, (deadline,)) as pool:
        it = pool.imap_unordered(run_job, jobs)
        for _ in jobs:
            try: job, obs, inf = it.next(timeout=max(1, deadline + 60 - time.time()))
            except mp.TimeoutError:
                bad.append(dict(name='unfinished jobs', ok=False, detail='verifier limit: out of time', kind='limit')); break
            for o in obs:
                n += 1; kinds[o['kind']] += 1
                if o['ok']: ok += 1
                else: bad.append(o)
            for k, v in inf.items():
                if isinstance(v, (int, float)): info[k] += v
                elif k == 'functions':
                    for f in v: fns[f] += 1
                elif k == 'extra': extra.update(v)
            fails = [o for o in obs if not o['ok']]
            if fails and found is None:
                key = fails[0].get('search')
                if key is not None and tried.get(key[0], 0) < 2 and len(tried) < 12:
                    tried[key[0]] = tried.get(key[0], 0) + 1
                    try: found = plan.find_input(G, key, [h for o in fails for h in o.get('hints', ())], seed, 25)
                    except build.BuildError as e: pass
                    except Exception: traceback.print_exc()
                    if found:
                        found['obligation'] = fails[0]['name']; found['detail'] = fails[0]['detail']
                        pool.terminate(); break
    # obligations that are concrete evaluations of the real code carry their own failing input
    if found is None:
        for o in bad:
            if o.get('replay'):
                found = dict(o['replay']); found['obligation'] = o['name']; found['detail'] = o['detail']; break
    kf = known(prop)
    cov = dict(obligations=n, discharged=ok, checker_cmd='python3-vt check.py %s %s' % (prop, tier),
               trusted_base=P['trusted'], functions_under_contract=sorted(fns), obligations_by_kind=dict(kinds),
               solver='z3 (linear real/integer arithmetic) and polynomial normal forms', solver_queries=int(info['queries']),
               solver_unsat=int(info['unsat']), solver_seconds=round(info['solver_s'], 1), cpu_seconds=round(info['seconds'], 1),
               configurations=P.get('configurations', []))
    cov.update(extra); cov.update(P.get('extra', {}))
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', coverage=cov, assumptions=P['assumptions'],
              wall_s=round(time.time() - t0, 1), violations=1 if bad else 0)
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
    for l in kf: print('KNOWN-FINDING: ' + l)
    print('%s: %d obligations, %d discharged, %d functions, %.0f s' % (prop, n, ok, len(fns), time.time() - t0))
    if not n:
        bad.append(dict(name='no obligation was generated', ok=False, detail='', kind='limit'))
    if not bad: return 0
    rf = os.path.join(EVID, 'replay_%s.json' % prop)
    if found is None:
        rec = dict(property=prop, kind='obligation', failed=[{k: o[k] for k in ('name', 'detail', 'kind')} for o in bad[:50]])
    else:
        rec = dict(property=prop, failed=[{k: o[k] for k in ('name', 'detail', 'kind')} for o in bad[:50]], **found)
    json.dump(rec, open(rf, 'w'), indent=1)
    for o in bad[:5]: print('  not discharged: %s: %s' % (o['name'], o['detail'][:300]))
    if found: print('  failing input: %s' % found.get('what', '')[:400])
    print('VIOLATION property=%s replay=%s%s' % (prop, rf, '' if found else ' no-failing-input-found'))
    return 1

def replay(f):
    rec = json.load(open(f))
    if 'line' not in rec and 'cmd' not in rec:
        print(json.dumps(rec, indent=1)); return 0
    return plan.replay(rec)
