#!/usr/bin/env python3-vt
"""check.py --property Cxx [--tier quick|thorough]

Decides one property of /repo's current working tree:
 1. every function the property depends on is verified against its contract: obligations generated from the
    current source, each discharged by an SMT solver;
 2. in parallel, a search for a concrete failing input runs against the real library built from the same tree
    (it replays/witnesses violations, and is the labelled bounded stand-in for what has no contract).
"""
import argparse, json, multiprocessing as mp, os, shutil, sys, threading, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import cfront, native, solve, vc, contract
from contracts.base import REG
import run1, plan
from concurrent.futures import ThreadPoolExecutor

PROG = None


def sig(prog, name, seen=None):
    """shape of a function (and of what is inlined into it): loops, locals, calls"""
    from pycparser import c_ast
    seen = seen if seen is not None else set()
    if name in seen or name not in prog.funcs:
        return []
    seen.add(name)
    loops, loc, calls = [], set(), set()

    class V(c_ast.NodeVisitor):
        d = 0

        def loop(self, n):
            loops.append('%s%d' % (type(n).__name__, self.d)); self.d += 1; self.generic_visit(n); self.d -= 1
        visit_For = visit_While = visit_DoWhile = loop

        def visit_Decl(self, n):
            if n.name:
                loc.add(n.name)
            self.generic_visit(n)

        def visit_FuncCall(self, n):
            if isinstance(n.name, c_ast.ID):
                calls.add(n.name.name)
            self.generic_visit(n)
    V().visit(prog.funcs[name])
    r = [name, loops, sorted(loc), sorted(calls)]
    out = [r]
    for f in sorted(calls):
        if f in prog.funcs and (f not in REG or REG[f].inline):
            out += sig(prog, f, seen)
    return out


def has_loops(s):
    return any(x[1] for x in s)


def gen(task):
    """worker: obligations of one function (one variant); pending ones carry their SMT-LIB text"""
    name, vi = task; var = getattr(REG[name], 'variants', [{}])[vi]
    t0 = time.time()
    try:
        con = REG[name]
        if con.fn not in PROG.funcs:
            return dict(fn=name, err='function not found in the source', obs=[], t=0)
        eng = vc.Engine(PROG, REG)
        contract.Ctx.variant = var
        info = con.verify(eng)
        obs = []
        for o in eng.obs:
            d = dict(fn=name, kind=o.kind, name=o.name, tags=o.tags, oom=bool(o.oom), status=o.status, backend=o.backend, time=0.0)
            if o.status is None:
                d['text'] = solve.smt2(eng, o); d['trace'] = [str(x) for x in (o.trace or [])][-40:]
            obs.append(d)
        return dict(fn=name, var=vi, obs=obs, paths=info['paths'], loops=info['loops'], inlined=sorted(eng.inlined), called=sorted(eng.called), err=None, t=time.time() - t0)
    except vc.Unsupported as e:
        return dict(fn=name, err='outside the verifier\'s reach: %s' % e, obs=[], t=time.time() - t0)
    except Exception as e:
        return dict(fn=name, err='%s: %s' % (type(e).__name__, e), obs=[], t=time.time() - t0, tb=traceback.format_exc())


def relevant(prop, d):
    if prop == 'C12':
        return d['kind'] in ('mem', 'leak', 'frame') or 'C12' in d['tags'] or not d['tags']
    if prop == 'C11':
        return 'C11' in d['tags'] or (d['oom'] and d['kind'] in ('mem', 'leak', 'post', 'frame'))
    return prop in d['tags'] or not d['tags']


def verify_all(prop, names, timeout, deadline, workers, result, partly=False):
    t0 = time.time()
    tasks = [(n, v) for n in names for v in range(len(getattr(REG[n], 'variants', [{}])))]
    fns = {}
    texts = {}
    lock = threading.Lock()
    ctx = mp.get_context('fork')
    if not tasks:
        result.update(fns={}, secs=0.0); return
    order = plan.COST
    tasks.sort(key=lambda t: -order.get(t[0], 1))
    ex = ThreadPoolExecutor(workers)
    futs = {}

    def job(t):
        if time.time() > deadline:
            return ('timeout', '-', 0.0, ['not attempted: time budget used up'])
        return solve.solve_text(t, timeout)
    with ctx.Pool(min(workers, len(tasks))) as pool:
        for r in pool.imap_unordered(gen, tasks):
            f = fns.setdefault(r['fn'], dict(obs=[], err=None, paths=0, loops=0, inlined=set(), called=set(), t=0.0))
            if r['err']:
                f['err'] = r['err']; f['tb'] = r.get('tb')
            f['t'] += r['t']
            f['paths'] += r.get('paths', 0); f['loops'] = max(f['loops'], r.get('loops', 0)); f['inlined'] |= set(r.get('inlined', ())); f['called'] |= set(r.get('called', ()))
            for d in r['obs']:
                f['obs'].append(d)
                t = d.pop('text', None)
                if t is not None and partly and not relevant(prop, d):
                    d['status'] = 'skipped'; t = None
                if t is not None:
                    texts.setdefault(t, []).append(d)
                    if t not in futs:
                        futs[t] = ex.submit(job, t)
    for t, fu in futs.items():
        st, be, tm, outs = fu.result()
        for d in texts[t]:
            d['status'], d['backend'], d['time'], d['out'] = st, be, tm / len(texts[t]), outs
            if st != 'ok':
                d['smt'] = t
    ex.shutdown()
    result.update(fns=fns, secs=time.time() - t0)


def main():
    global PROG
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--no-native', action='store_true')
    ap.add_argument('--no-proof', action='store_true')
    ap.add_argument('--seconds', type=float)
    a = ap.parse_args()
    prop = a.property; tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    run1.load_all()
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
    P = plan.PROPS[prop]
    secs = a.seconds or (P.get('seconds', 14) if tier == 'quick' else 420)
    bases = []
    rc = 2
    try:
        cfgs = ['default', 'int'] if tier == 'quick' else ['default', 'int', 'wide']
        with ThreadPoolExecutor(3) as ex:
            bs = list(ex.map(lambda c: cfront.prepare(c, a.repo), cfgs))
        bases += bs
        nat_res = {}; drvs = []
        names = [n for n in REG if not REG[n].trusted and (prop in REG[n].props or (prop == 'C12') or (prop == 'C11'))]
        if a.no_proof:
            names = []
        front_err = None
        try:
            PROG = cfront.load('default', a.repo, bs[0])
        except cfront.FrontError as e:
            front_err = str(e)
        if front_err and 'preprocess' in front_err:
            pass
        build_err = []

        def nat():
            try:
                with ThreadPoolExecutor(3) as ex:
                    for c, d in zip(cfgs, ex.map(native.build, bs)):
                        drvs.append((c, d))
            except native.BuildError as e:
                build_err.append(str(e)); return
            order = [drvs[0]] * 3 + [drvs[1]] if len(drvs) == 2 else drvs
            nat_res.update(native.run_many(order, prop, seed, secs, 6 if tier == 'quick' else 7, bs[0]))
        th = None
        ver = dict(fns={}, secs=0.0)
        budget = 300 if tier == 'quick' else 1500
        vth = None
        if front_err is None and names:
            def verify(*args):
                try:
                    verify_all(*args)
                except Exception:
                    ver['crash'] = traceback.format_exc()
            vth = threading.Thread(target=verify, args=(prop, names, 12 if tier == 'quick' else 40, time.time() + budget, 8, ver, tier == 'quick' and prop in ('C11', 'C12')))
        # the pool forks before the native threads start
        if vth:
            vth.start()
        if not a.no_native:
            time.sleep(0.3)
            th = threading.Thread(target=nat); th.start()
            th.join()
        if vth:
            if nat_res.get('fail'):
                vth.join(60)
            else:
                vth.join()
        rc = decide(prop, tier, seed, P, a, names, ver, nat_res, drvs, build_err, front_err, bs, secs, t0, vth)
    finally:
        for b in bases:
            shutil.rmtree(b, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def replay_native(prop, fail, a):
    out = fail['out']
    i = out.find('FAIL property=')
    if i < 0:
        head = 'the driver died without a report (status %s)' % fail['rc']
    else:
        head = out[i:i + 6000]
    case = head.split('case=')[1].split()[0] if 'case=' in head else '?'
    sd = head.split('seed=')[1].split()[0] if 'seed=' in head else '?'
    path = os.path.join(VERIF, 'replay', '%s.txt' % prop)
    with open(path, 'w') as f:
        f.write('property %s violated by the real code, library configuration %s\n\n%s\n\n' % (prop, fail['config'], head))
        f.write('replay against the current /repo:  python3-vt %s/replay.py %s %s %s %s\n\n' % (HERE, prop, sd, case, fail['config']))
        f.write('--- driver output (end)\n' + out[-6000:] + '\n')
    return path


def decide(prop, tier, seed, P, a, names, ver, nat, drvs, build_err, front_err, bs, secs, t0, vth):
    base_sigs = {}
    bp = os.path.join(HERE, 'baseline.json')
    if os.path.exists(bp):
        base_sigs = json.load(open(bp))
    if build_err:
        print('check %s: cannot build the library of the current tree:\n%s' % (prop, build_err[0]))
        return 2
    if ver.get('crash'):
        print('check %s: the verifier broke down:\n%s' % (prop, ver['crash']))
        return 2
    fns = ver.get('fns', {})
    obs = [d for f in fns.values() for d in f['obs'] if relevant(prop, d)]
    pend = [d for d in obs if d['status'] is None]
    undecided, failed = [], []
    for n in names:
        f = fns.get(n)
        if f is None:
            undecided.append((n, 'not verified in this run' if front_err is None else 'front end: ' + front_err)); continue
        if f['err']:
            undecided.append((n, f['err'])); continue
        s = sig(PROG, REG[n].fn); changed = base_sigs.get(n) != json.loads(json.dumps(s))
        rel = [d for d in f['obs'] if relevant(prop, d)]
        bad = [d for d in rel if d['status'] == 'fail']
        to = [d for d in rel if d['status'] in ('timeout', 'error', None)]
        allbad_inv = [d for d in f['obs'] if d['status'] not in ('ok', 'skipped') and d['kind'] in ('inv', 'lemma')]
        if bad:
            if changed and has_loops(s):
                undecided.append((n, '%d obligation(s) fail, but the loops/locals/calls of the function differ from the ones the invariants were written for: %s' % (len(bad), bad[0]['name'])))
            elif any(d['status'] != 'fail' for d in allbad_inv):
                undecided.append((n, 'an invariant could not be decided in time'))
            else:
                failed += [(n, d) for d in bad]
        elif to:
            undecided.append((n, '%d obligation(s) not decided in time: %s' % (len(to), to[0]['name'])))
    extra = None
    if failed and not nat.get('fail') and drvs:
        # look longer for a concrete input
        extra = native.run_many([drvs[0]] * 3 + [drvs[-1]], prop, seed + 1000003, 45 if tier == 'quick' else 300, 8, bs[0], offset=10 ** 7)
        nat['cases'] += extra['cases']; nat['distinct'] += extra['distinct']
        if extra['fail']:
            nat['fail'] = extra['fail']
    viol = 0
    rc = 0
    if nat.get('fail'):
        path = replay_native(prop, nat['fail'], a)
        if failed:
            with open(path, 'a') as fh:
                fh.write('\n--- failed obligations\n' + '\n'.join('%s: %s: %s' % (n, d['kind'], d['name']) for n, d in failed[:20]) + '\n')
        i = nat['fail']['out'].find('FAIL property=')
        print(nat['fail']['out'][i:i + 1500] if i >= 0 else nat['fail']['out'][-1500:])
        for n, d in failed[:5]:
            print('failed obligation: %s: %s: %s' % (n, d['kind'], d['name']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        viol = 1; rc = 1
    elif failed:
        path = os.path.join(VERIF, 'replay', '%s.txt' % prop)
        with open(path, 'w') as fh:
            for n, d in failed[:10]:
                fh.write('function %s (%s)\nobligation %s: %s\ntags %s\nsolver: %s\npath through the function:\n  %s\n\n' % (n, PROG.files.get(n), d['kind'], d['name'], ' '.join(d['tags']), '; '.join(d.get('out') or []), '\n  '.join(d.get('trace') or [])))
            fh.write('SMT-LIB of the first failed obligation (satisfiable = broken):\n' + (failed[0][1].get('smt') or '')[:200000])
        for n, d in failed[:8]:
            print('failed obligation: %s: %s: %s' % (n, d['kind'], d['name']))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        viol = 1; rc = 1
    known = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(known):
        for l in open(known):
            if l.startswith('open: property=%s ' % prop):
                print('KNOWN-FINDING: ' + l[6:].strip())
    ok = [d for d in obs if d['status'] == 'ok']
    be = {}
    for d in ok:
        be[d['backend']] = be.get(d['backend'], 0) + 1
    trusted = list(plan.TRUSTED) + P.get('trusted', [])
    tset = sorted(n for n in REG if REG[n].trusted and any(n in f['called'] for f in fns.values()))
    cov = dict(
        obligations=len(obs), discharged=len(ok), checker_cmd='python3-vt engine/check.py --property %s --tier %s' % (prop, tier),
        trusted_base=trusted + ['assumed contract of %s: %s' % (n, REG[n].trusted) for n in tset],
        functions_under_contract=sorted(n for n, f in fns.items() if not f['err']),
        inlined_functions=sorted(set().union(*[f['inlined'] for f in fns.values()]) if fns else []),
        paths=sum(f['paths'] for f in fns.values()), loops_with_invariants=sum(f['loops'] for f in fns.values()),
        discharged_by=be, solver_s=round(sum(d['time'] or 0 for d in obs), 2), proof_wall_s=round(ver.get('secs', 0), 2),
        left_to_other_checks=sum(1 for f in fns.values() for d in f['obs'] if d['status'] == 'skipped'),
        undecided=['%s: %s' % u for u in undecided], failed=['%s: %s' % (n, d['name']) for n, d in failed][:50],
        not_under_contract=P.get('bounded_for', []),
        evaluations=nat.get('cases', 0), distinct_nontrivial=nat.get('distinct', 0),
        rule=P['rule'] + ' Non-trivial: the call gets past argument validation to the part the property speaks about; distinct: by hash of the full input description. This part is bounded (%.0f s, small inputs) and not counted as proved.' % secs,
        samples=nat.get('samples', [])[:6] or ['none'],
        explanation=P['explain'])
    ev = dict(property=prop, tier=tier, seed=seed, level=P['level'], coverage=cov, assumptions=trusted + P.get('assume', []), wall_s=round(time.time() - t0, 2), violations=viol)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    if viol == 0:
        print('%s: %d/%d obligations discharged over %d functions (%s); %d inputs against the built library, no failure; %.0f s' % (prop, len(ok), len(obs), len(fns), ', '.join('%s %d' % x for x in sorted(be.items())), nat.get('cases', 0), time.time() - t0))
        for u in undecided:
            print('  undecided: %s: %s' % u)
    return rc


if __name__ == '__main__':
    main()
