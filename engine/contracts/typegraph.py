"""nng_core.c: storage, errors and validity of the type-constraint graph (C10, C11, C12, C16).

A second contract on iscc_get_nng_with_type_constraint, proved of its body; which points its rows hold stays in the assumed
contract in nng.py.  The graphs of the types live in an array that is filled in a loop: OW[o] is the graph that block o
belongs to (-1 for every other block).
"""
from .base import *
from .spi import *
from .findseeds import const, ghost
from .dgops import AI
from .nng import _tg_pre
CG = ('C12',)


def _post(c):
    v = c.v; N = v.N

    def blocks():
        o = z3.Int('o'); al = lambda st: c.eng.fam_get(st, 'alive')
        c.fact('no block of the graphs of the types is left', forall([o], Imp(o > 0, z3.Select(al(c.st), o) == z3.Select(al(c.old), o)), [z3.Select(al(c.st), o)]), ('C11', 'C12'))

    def ok():
        out = v.out; M = out('max_arcs')
        t = c.fresh(out.loc('tail_ptr'), N + 1); h = c.fresh(out.loc('head'), M, null=(M == 0))
        c.fact('size of the graph', And(out('vertices') == N, M >= 0, M <= c.const('ISCC_ARCINDEX_MAX')), CG)
        for nm, f in valid_facts(N, M, t.at, h.at):
            c.fact('result: ' + nm, f, CG)
        blocks()
    return [('ok', c.ret == EC(c, 'OK'), ok), ('error no solution', c.ret == EC(c, 'NO_SOLUTION'), blocks), ('error invalid', c.ret == EC(c, 'INVALID_INPUT'), blocks), ('error no memory', And(c.ret == EC(c, 'NO_MEMORY'), oom(c)), blocks),
            ('error too large', c.ret == EC(c, 'TOO_LARGE_PROBLEM'), blocks), ('error search', c.ret == EC(c, 'DIST_SEARCH_ERROR'), blocks)]


def _copy(L):
    i = L.v('i'); s = L.arr('seedable'); k = z3.Int('k')
    return [('position', And(0 <= i, i <= L.c.v.N)), ('all points so far', forall([k], Imp(And(0 <= k, k < i), s.at(k) == k), [s.at(k)]))]


class G:
    """the graphs of the types made so far"""

    def __init__(s, L, st=None):
        e, st = L.eng, st or L.st; s.N = L.c.v.N; S_ = z3.Select
        p = L._val(st, 'nng_by_type').v; o = st.heap[p.obj]
        pt, ph, s.ma, s.vt = o.c['tail_ptr'], o.c['head'], o.c['max_arcs'], o.c['vertices']
        tf, hf = [dict(leafs(o.elem))[f].to for f in ('tail_ptr', 'head')]
        mt, mh = [e.fam_get(st, e.fam_key(x)) for x in (tf, hf)]
        s.to, s.ho = (lambda i: S_(pt.objs, i)), (lambda i: S_(ph.objs, i))
        s.tf, s.hf = (lambda i: S_(pt.offs, i)), (lambda i: S_(ph.offs, i))
        s.T = lambda i, k: S_(S_(mt, s.to(i)), k)
        s.H = lambda i, k: S_(S_(mh, s.ho(i)), k)
        s.mt, s.mh = mt, mh; al, ln = e.fam_get(st, 'alive'), e.fam_get(st, 'len')
        s.al = lambda x: S_(al, x); s.ln = lambda x: S_(ln, x)
        s.key = tuple(x.get_id() for x in (pt.objs, ph.objs, s.ma, s.vt, mt, mh, al, ln))
        s.top, s.arcs = L.c.const('ISCC_POINTINDEX_MAX'), L.c.const('ISCC_ARCINDEX_MAX')
        s.al0 = lambda x: S_(e.fam_get(L.c.old, 'alive'), x)


def storage(L, g, lo, hi):
    """graphs lo..hi-1 own their blocks; no other block is live that was not before"""
    OW = L.g('OW'); i, o = ivars('i', 'o'); S_ = z3.Select; w = OW[o]; r = And(lo <= i, i < hi)
    return [('blocks of the graphs', forall([i], Imp(r, And(g.to(i) > 0, g.ho(i) >= 0, g.tf(i) == 0, g.hf(i) == 0, OW[g.to(i)] == i, Imp(g.ho(i) > 0, And(OW[g.ho(i)] == i, g.ho(i) != g.to(i))))), [g.to(i), g.ho(i), g.tf(i), g.hf(i)])),
            ('live blocks', forall([o], Imp(o > 0, And(g.al(o) == Or(g.al0(o), And(lo <= w, w < hi)), w < hi, Imp(w >= 0, Not(g.al0(o))), Imp(w >= lo, Or(o == g.to(w), o == g.ho(w))))), [g.al(o), w]))]


def graphs(L, g, hi):
    i, a, b, k = ivars('i', 'a', 'b', 'k'); r = And(0 <= i, i < hi); N = g.N
    return [('sizes of the graphs', forall([i], Imp(r, And(z3.Select(g.vt, i) == N, z3.Select(g.ma, i) >= 0, z3.Select(g.ma, i) <= g.arcs)), [z3.Select(g.vt, i), z3.Select(g.ma, i), g.to(i), g.ho(i)])),
            ('lengths of the blocks', forall([i], Imp(r, And(g.ln(g.to(i)) == N + 1, (g.ho(i) == 0) == (z3.Select(g.ma, i) == 0), Imp(g.ho(i) > 0, g.ln(g.ho(i)) == z3.Select(g.ma, i)))), [g.to(i), g.ho(i)])),
            ('first rows start at 0', forall([i], Imp(r, g.T(i, I(0)) == 0), [g.T(i, I(0)), g.to(i)])),
            ('rows of the graphs are ordered', forall([i, a, b], Imp(And(r, 0 <= a, a <= b, b <= N), g.T(i, a) <= g.T(i, b)), [(g.T(i, a), g.T(i, b))])),
            ('arcs of the graphs fit', forall([i], Imp(r, g.T(i, N) <= z3.Select(g.ma, i)), [g.T(i, N), g.to(i)])),
            ('heads of the graphs are vertices', forall([i, k], Imp(And(r, 0 <= k, k < g.T(i, N)), And(g.H(i, k) >= 0, g.H(i, k) < N)), [g.H(i, k)]))]


def queries(L):
    c = L.c; v = c.v; nq = L.v('num_queries'); s = L.v('seedable'); a, b = ivars('a', 'b')
    r = [('number of queries', And(1 <= nq, nq <= v.N))]
    if not is_true(L.eng.isnull(s)):
        q = L.arr('seedable')
        r.append(('queries are data points', forall([a], Imp(And(0 <= a, a < nq), And(q.at(a) >= 0, q.at(a) < v.N)), [q.at(a)])))
        r.append(('queries are sorted', forall([a, b], Imp(And(0 <= a, a < b, b < nq), q.at(a) < q.at(b)), [(q.at(a), q.at(b))])))
    else:
        r.append(('all queries', nq == (v.N if v.pn else v.np)))
    return r


def _types(L):
    c = L.c; v = c.v; g = G(L); i, n = L.v('i'), L.v('num_non_zero_type_constraints'); TS = c.st.ghosts['iscc_type_count.TS']
    return [('type', And(0 <= i, i <= v.nt, 0 <= n, n <= i, Or(n > 0, TS[i] == 0))), ('no error so far', L.v('ec') == EC(c, 'OK'))] + queries(L) + storage(L, g, I(0), n) + graphs(L, g, n)


def _types_g0(L):
    o = z3.Int('o'); OW = const('OW', AI)
    L.assume_def(forall([o], OW[o] == -1, [OW[o]]), 'ghost')
    L.setg('OW', OW)


def _types_head(L):
    """the group of the next type"""
    c = L.c; v = c.v; i = L.v('i'); SS, TS = [c.st.ghosts['iscc_type_count.' + n] for n in ('SS', 'TS')]; more = i < v.nt; q = z3.Int('q')
    tg, gs = L.arr('tc', 'type_groups').at, L.arr('tc', 'type_group_size').at; ps = L.arr('tc', 'point_store').at; b = tg(i).off
    L.by('group of the type', Imp(more, And(Not(tg(i).null), b == SS[i], SS[i + 1] == SS[i] + gs(i), 0 <= SS[i], SS[i + 1] <= SS[v.nt], SS[v.nt] == v.N, 0 <= gs(i), gs(i) <= v.N, v.tc.at(i) <= gs(i), TS[i + 1] == TS[i] + v.tc.at(i))), tags=CG,
         only=['group sizes', 'sums of constraints', 'groups follow each other', 'groups ordered', 'sum of the constraints', 'group starts', 'pointers into out_type_result->point_store'])
    L.by('points of the type', forall([q], Imp(And(more, b <= q, q < b + gs(i)), And(0 <= ps(q), ps(q) < v.N)), [ps(q)]), tags=CG, only=['points of a group', 'group of the type'])


def v_tc(L):
    return L.c.v.tc.at(L.p('i'))


def _types_step(L):
    """the graphs made before are as they were; the one added"""
    c = L.c; n, n0 = L.v('num_non_zero_type_constraints'), L.p('num_non_zero_type_constraints')
    g, g0 = G(L), G(L, L.prev); i, a, b, k, o = ivars('i', 'a', 'b', 'k', 'o')
    if g.key == g0.key:
        return
    S_ = z3.Select; r = And(0 <= i, i < n0)
    L.by('earlier graphs', forall([i], Imp(r, And(g.to(i) == g0.to(i), g.ho(i) == g0.ho(i), g.tf(i) == g0.tf(i), g.hf(i) == g0.hf(i), S_(g.vt, i) == S_(g0.vt, i), S_(g.ma, i) == S_(g0.ma, i))), [g.to(i), g.ho(i), g.tf(i), g.hf(i), S_(g.vt, i), S_(g.ma, i), g0.to(i), g0.ho(i)]), tags=CG, only=['frame', ''])
    inv = ['loop1/' + nm for nm in ('blocks of the graphs', 'live blocks', 'sizes of the graphs', 'lengths of the blocks')]
    L.by('blocks of earlier graphs', forall([i], Imp(r, And(S_(g.mt, g.to(i)) == S_(g0.mt, g0.to(i)), g.ln(g.to(i)) == g0.ln(g0.to(i)), Imp(g0.ho(i) > 0, And(S_(g.mh, g.ho(i)) == S_(g0.mh, g0.ho(i)), g.ln(g.ho(i)) == g0.ln(g0.ho(i)))))), [g.to(i), g.ho(i)]), tags=CG, only=['earlier graphs'] + inv[:2])
    own, gr = storage(L, g, I(0), n), graphs(L, g, n)
    E = ['earlier graphs', 'blocks of earlier graphs']
    if n.eq(n0):
        for nm, f in own + gr:
            L.by(nm, f, tags=CG, only=E + ['loop1/' + nm] + inv)
        return
    L.assume_def(MUL(I(0), v_tc(L)) == 0, 'product with zero')
    t, h, N = g.to(n0), g.ho(n0), c.v.N; m = S_(g.ma, n0)
    TN, HN = const('TN', AI), const('HN', AI)
    L.assume_def(And(TN == S_(g.mt, t), HN == S_(g.mh, h)), 'ghost')
    L.by('graph added', And(n == n0 + 1, n0 >= 0, S_(g.vt, n0) == N, m >= 0, m <= g.arcs, t > 0, h >= 0, (h == 0) == (m == 0), g.tf(n0) == 0, g.hf(n0) == 0, t != h, Not(g0.al(t)), Imp(h > 0, Not(g0.al(h))), g.ln(t) == N + 1, Imp(h > 0, g.ln(h) == m)), tags=CG, only=[])
    RES = ['iscc_ensure_self_match: result: ' + nm for nm in ('rows are ordered', 'heads are vertices')]
    full = L.st is not None and any(x.n == RES[0] for x in L.st.pc)
    if full:
        L.by('some query is left', L.v('num_queries') >= 1, tags=CG, only=[])
        L.by('graph added: first row and room', And(TN[0] == 0, TN[N] <= m), tags=CG, only=[])
        L.by('graph added: rows', forall([a, b], Imp(And(0 <= a, a <= b, b <= N), TN[a] <= TN[b]), [(TN[a], TN[b])]), tags=CG, only=RES[:1])
        L.by('graph added: heads', forall([k], Imp(And(0 <= k, k < TN[N]), And(HN[k] >= 0, HN[k] < N)), [HN[k]]), tags=CG, only=RES[1:])
    OW0 = L.g('OW')
    OW = const('OW', AI)
    L.assume_def(forall([o], OW[o] == Ite(Or(o == t, And(h > 0, o == h)), n0, OW0[o]), [OW[o], OW0[o]]), 'owners')
    L.setg('OW', OW)
    L.by('blocks live now', forall([o], Imp(o > 0, g.al(o) == Or(g0.al(o), o == t, And(h > 0, o == h))), [g.al(o), g0.al(o)]), tags=CG, only=[])
    own = storage(L, g, I(0), n)
    for nm, f in own + (gr if full else []):
        L.by(nm, f, tags=CG, only=E + ['loop1/' + nm, 'graph added', 'graph added: first row and room', 'graph added: rows', 'graph added: heads', 'owners', 'blocks live now'] + inv)


def _free(L):
    g = G(L); i, n = L.v('i'), L.v('num_non_zero_type_constraints')
    return [('graph', And(0 <= i, i <= n))] + storage(L, g, i, n)


def _free_step(L):
    g, g0 = G(L), G(L, L.prev); i = L.p('i'); n = L.v('num_non_zero_type_constraints'); j, o = ivars('j', 'o')
    L.by('later graphs', forall([j], Imp(And(i < j, j < n), And(g.to(j) == g0.to(j), g.ho(j) == g0.ho(j), g.tf(j) == g0.tf(j), g.hf(j) == g0.hf(j))), [g.to(j), g.ho(j), g.tf(j), g.hf(j)]), tags=CG, only=[])
    L.by('blocks of this graph', And(g0.to(i) > 0, L.g('OW')[g0.to(i)] == i, g0.ho(i) >= 0, Imp(g0.ho(i) > 0, L.g('OW')[g0.ho(i)] == i)), tags=CG, only=['loop2/blocks of the graphs'])
    L.by('blocks live now', forall([o], Imp(o > 0, g.al(o) == And(g0.al(o), o != g0.to(i), o != g0.ho(i))), [g.al(o), g0.al(o)]), tags=CG, only=['blocks of this graph'])
    for nm, f in storage(L, g, i + 1, n):
        L.by(nm, f, tags=CG, only=['later graphs', 'blocks of this graph', 'blocks live now', 'loop2/blocks of the graphs', 'loop2/live blocks'])


r = reg('iscc_get_nng_with_type_constraint: storage and errors', _tg_pre, _post, fn='iscc_get_nng_with_type_constraint',
        loops={0: LoopSpec(_copy), 1: LoopSpec(_types, ghosts=('OW',), ghost0=_types_g0, head=_types_head, step=_types_step, exit=_types_step), 2: LoopSpec(_free, step=_free_step)},
        props=('C11', 'C12', 'C16'))
r.variants = [{'pn': True}, {'pn': False}]
