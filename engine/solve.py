"""Discharging obligations: SMT-LIB text to z3 and cvc5, in parallel, nothing cached between runs."""
import os, subprocess, tempfile, time, shutil, re
from concurrent.futures import ThreadPoolExecutor
import z3
from vc import Not, has_quant

Z3 = shutil.which('z3-new') or shutil.which('z3')
CVC5 = shutil.which('cvc5')
_symc = {}


def symbols(f):
    i = f.get_id()
    r = _symc.get(i)
    if r is not None:
        return r[1]
    out = set(); seen = set(); st = [f]
    while st:
        x = st.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            st.extend(x.children())
    _symc[i] = (f, frozenset(out))
    return _symc[i][1]


def smt2(eng, ob):
    fs = [x.f for x in ob.pc]
    goal = ob.goal
    # dedupe
    seen = set(); fl = []
    for f in fs:
        if f.get_id() not in seen:
            seen.add(f.get_id()); fl.append(f)
    syms = set(symbols(goal))
    for f in fl:
        syms |= symbols(f)
    done = set(); todo = list(syms); axs = []
    while todo:
        s = todo.pop()
        if s in done:
            continue
        done.add(s)
        for a in eng.ax.get(s, ()):
            axs.append(a)
            for y in symbols(a):
                if y not in done:
                    todo.append(y)
    s = z3.Solver()
    for f in fl + axs:
        s.add(f)
    # the negated goal, its leading universals replaced by constants
    k = 0
    while True:
        if z3.is_quantifier(goal) and goal.is_forall():
            vs = []
            for i in range(goal.num_vars()):
                vs.append(z3.Const('goal.%s!%d' % (goal.var_name(i), k), goal.var_sort(i))); k += 1
            goal = z3.substitute_vars(goal.body(), *reversed(vs))
        elif z3.is_implies(goal):
            s.add(goal.arg(0)); goal = goal.arg(1)
        else:
            break
    s.add(Not(goal))
    return s.to_smt2()


HEAD = '(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.qi.eager_threshold 100)\n'


def run(cmd, text, timeout):
    t0 = time.time()
    try:
        p = subprocess.run(cmd, input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout + 5)
        out = p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        out = 'timeout'
    return out, time.time() - t0


def first(out):
    for l in out.split('\n'):
        l = l.strip()
        if l in ('sat', 'unsat', 'unknown', 'timeout'):
            return l
    return 'error'


VARIANTS = [
    ('z3', ['tactic.default_tactic=smt'], 0.5),
    ('z3-rel0', ['tactic.default_tactic=smt', 'smt.relevancy=0'], 1.0),
    ('z3-default', [], 0.5),
    ('z3-arith2', ['tactic.default_tactic=smt', 'smt.arith.solver=2', 'smt.case_split=3'], 1.0),
    ('cvc5', [], 1.0),
    ('z3-seed', ['smt.random_seed=7', 'smt.phase_selection=0'], 0.5),
]


def solve_text(text, timeout):
    """-> (status ok|fail|timeout|error, backend, time, detail)"""
    tot = 0.0
    outs = []
    to = False
    for name, opts, w in VARIANTS:
        tl = max(2, int(timeout * w))
        if name == 'cvc5':
            if CVC5 is None:
                continue
            t2 = re.sub(r'\(set-option :(auto_config|smt\.[^ ]*) [^)]*\)\n', '', text)
            out, dt = run([CVC5, '--lang=smt2', '--tlimit=%d' % (tl * 1000), '--full-saturate-quant' if False else '--no-stats', '-'], '(set-logic ALL)\n' + t2, tl)
        else:
            out, dt = run([Z3, '-in', '-T:%d' % tl] + opts, HEAD + text, tl)
        tot += dt
        r = first(out)
        outs.append('%s: %s (%.2fs)' % (name, r, dt))
        if r == 'unsat':
            return 'ok', name, tot, outs
        if r == 'error':
            outs.append(out[:300])
        if r in ('timeout',) or (r == 'unknown' and dt > tl * 0.9):
            to = True
    return ('timeout' if to else 'fail'), '-', tot, outs


def discharge(eng, obs, timeout=10, workers=8, deadline=None):
    todo = [o for o in obs if o.status is None]
    # identical obligations on several paths are solved once
    texts = {}
    for o in todo:
        t = smt2(eng, o)
        texts.setdefault(t, []).append(o)
        o.pc = None

    def job(t):
        if deadline is not None and time.time() > deadline:
            return t, ('timeout', '-', 0.0, ['not attempted: time budget used up'])
        return t, solve_text(t, timeout)
    with ThreadPoolExecutor(workers) as ex:
        for t, (st, be, tm, outs) in ex.map(job, list(texts)):
            for o in texts[t]:
                o.status, o.backend, o.time, o.out = st, be, tm / len(texts[t]), outs
                if st != 'ok':
                    o.model = t
    return len(texts)
