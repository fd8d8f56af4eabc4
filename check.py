#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]: discharge every obligation of the property over /repo's current source."""
import sys, os, time, json, re, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
sys.dont_write_bytecode = True; os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.setrecursionlimit(20000)
import multiprocessing as mp
from vc import build, tasks

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    try:
        work = tasks.plan(prop, tier)
    except build.BuildError as ex:
        r = tasks.failure('the code under contract compiles with the interface its contracts name', str(ex)); r.update(task='build', wall=0.0)
        sys.exit(report(prop, tier, [r], time.time() - t0))
    except Exception as ex:
        print(f'ERROR property={prop} cannot build the verification input: {ex}', flush=True); traceback.print_exc(); sys.exit(2)
    res = run(work, t0, tier)
    rc = report(prop, tier, res, time.time() - t0)
    sys.exit(rc)

def _one(k):
    name, fn, arg = _one.work[k]
    t = time.time()
    try:
        r = fn(arg)
        r['task'] = name
    except Exception as ex:
        if type(ex).__name__ in ('Unsupported', 'NeedSplit', 'BuildError', 'Unmergeable', 'Mismatch'):
            # the obligations of this task cannot be discharged from the current source
            r = tasks.failure(f'{name}: obligations of the task are discharged', f'the verifier cannot decide the obligations: {ex}\n{traceback.format_exc()}'); r['task'] = name
        else: r = dict(task=name, obligations=[], failures=[], functions={}, assumed=[], error=f'{type(ex).__name__}: {ex}', trace=traceback.format_exc())
    r['wall'] = time.time() - t
    return r

def run(work, t0, tier):
    _one.work = work
    n = int(os.environ.get('VERIF_JOBS', '8'))
    if n == 1 or len(work) == 1: return [_one(k) for k in range(len(work))]
    ctx = mp.get_context('fork')
    out = []
    with ctx.Pool(min(n, len(work)), maxtasksperchild=4) as p:
        for r in p.imap_unordered(_one, range(len(work)), chunksize=1): out.append(r)
    out.sort(key=lambda r: r['task'])
    return out

def report(prop, tier, res, wall):
    known = []
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf): known = [k for k in json.load(open(kf))['findings'] if k['property'] == prop]
    obs = [o for r in res for o in r['obligations']]
    fails = [(r, f) for r in res for f in r['failures']]
    errs = [r for r in res if r.get('error')]
    disc = [o for o in obs if o['status'] == 'proved']
    unk = [o for o in obs if o['status'] == 'unknown']
    fns = {}
    for r in res:
        for k, v in r['functions'].items(): fns[k] = v
    assumed = sorted({a for r in res for a in r['assumed']})
    by = {}
    for o in disc: by[o['backend']] = by.get(o['backend'], 0) + 1
    kinds = {}
    for o in obs: kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
    # an obligation neither proved nor refuted is not accepted either
    for r in res:
        for o in r['obligations']:
            if o['status'] == 'unknown': fails.append((r, dict(name=o['name'], kind=o['kind'], fn='', detail='no verdict from z3 and cvc5 within the time limit', confirmed=False)))
    matched = []; viol = []
    for r, f in fails:
        k = next((k for k in known if k['task'] == r['task'] and k['obligation'] == f['name']), None)
        if k is not None: matched.append((k, f))
        else: viol.append((r, f))
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='proof',
              coverage=dict(obligations=len(obs), discharged=len(disc), checker_cmd=f'python3-vt check.py {prop} {tier}',
                            trusted_base=tasks.TRUSTED, discharged_by=by, obligation_kinds=kinds,
                            solver_time_s=round(sum(o['time'] for o in obs) + sum(r.get('solver_time', 0) for r in res), 2),
                            functions_under_contract=len(fns), functions=sorted(fns), tasks=len(res),
                            task_times={r['task']: round(r['wall'], 2) for r in res},
                            unknown=[o['name'] for o in unk], errors=[f"{r['task']}: {r['error']}" for r in errs],
                            known_findings=[k['id'] for k, f in matched],
                            bounded=sorted({b for r in res for b in r.get('bounded', [])}),
                            samples=[o['name'] for o in obs[:: max(1, len(obs) // 12)]][:12]),
              assumptions=assumed, wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    for k in {k['id']: k for k, f in matched}.values(): print(f"KNOWN-FINDING: property={prop} {k['text']}")
    print(f'{prop} [{tier}]: {len(disc)}/{len(obs)} obligations discharged {by}, {len(fns)} functions, {len(res)} tasks, {wall:.1f} s')
    if viol:
        d = os.path.join(HERE, 'replays', prop); os.makedirs(d, exist_ok=True)
        viol.sort(key=lambda x: (not x[1].get('confirmed'), x[0]['task']))
        r, f = viol[0]
        base = re.sub(r'[^A-Za-z0-9_.]+', '_', f"{r['task']}_{f['name']}")[:100]
        path = os.path.join(d, base + '.txt')
        with open(path, 'w') as o:
            o.write(f"property: {prop}\ntask: {r['task']}\nfailed obligation: {f['name']} ({f['kind']})\nin function: {f.get('fn','')}\n\n{f.get('detail','')}\n")
            if len(viol) > 1: o.write('\nother failed obligations:\n' + '\n'.join(f"  {a['task']}: {b['name']}" for a, b in viol[1:40]) + '\n')
            if f.get('src'): o.write('\n---- replay program (C++) ----\n' + f['src'])
        for a, b in viol[:8]: print(f"  failed: {a['task']}: {b['name']}" + (' [confirmed on the real code]' if b.get('confirmed') else ''))
        print(f'VIOLATION property={prop} replay={path}' + ('' if f.get('confirmed') else ' no-failing-input-found'))
        return 1
    if errs:
        for r in errs[:10]: print(f"ERROR {r['task']}: {r['error']}"); print(r.get('trace', '')[-1500:])
        return 2
    if len(disc) != len(obs) - len(matched) or not obs or len(obs) < tasks.MIN_OBL.get(prop, 1):
        print(f'ERROR: obligation count {len(obs)} below the expected {tasks.MIN_OBL.get(prop)} or not all decided'); return 2
    return 0

if __name__ == '__main__': main()
