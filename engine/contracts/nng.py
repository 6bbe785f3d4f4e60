"""nng_core.c: nearest neighbour graphs and clusters from seeds (C01, C02, C08, C09)"""
from .base import *
from .spi import *
from .findseeds import const, ghost, seed_facts, no_repeats
from .dgops import row_facts, AB, AAB
from vc import AV as AV_
C8 = ('C08', 'C01', 'C02')


def inverse_exists(st, A, n, name='QI'):
    """a strictly increasing list has an inverse: by induction over its length"""
    a = z3.Array('a', IS, IS); Q, Q2 = z3.Consts('Q Q2', AI); i, j, x, m = z3.Ints('i j x m')

    def inv(k, QQ):
        return z3.And(z3.ForAll([x], z3.Or(QQ[x] == -1, z3.And(0 <= QQ[x], QQ[x] < k, a[QQ[x]] == x))), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), QQ[a[j]] == j)))
    srt = z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j <= m), a[i] < a[j]))
    proved('inverse of an increasing list', z3.Implies(z3.ForAll([x], Q[x] == -1), inv(0, Q)), z3.Implies(z3.And(m >= 0, srt, inv(m, Q), Q2 == z3.Store(Q, a[m], m)), inv(m + 1, Q2)))
    R = const(name, AI)
    st.assume(forall([x], Or(R[x] == -1, And(0 <= R[x], R[x] < n, A(R[x]) == x)), [R[x]]), 'inverse list')
    st.assume(forall([j], Imp(And(0 <= j, j < n), R[A(j)] == j), [A(j)]), 'inverse list')
    return R


# ---------------------------------------------------------------- the graph made from one search
def _ms_pre(c):
    v = c.v
    v.o, v.hd = handle_arg(c, 'nn_search_object')
    v.n, v.si = v.hd.n, v.hd.si
    N = c.a('num_data_points'); nq = c.a('len_query_indices'); k = c.a('k')
    c.fact('number of points', And(N == v.hd.N, N >= 2))
    ms_common(c, N, nq, k)


def ms_common(c, N, nq, k):
    v = c.v
    v.N, v.nq, v.k = N, nq, k
    if c.mode == 'verify':
        al = c.variant.get('on') == 'alias'
    else:
        qp, op = c.a('query_indices'), c.a('out_query_indices')
        al = isinstance(op.obj, int) and op.obj != 0 and op.obj == qp.obj
    v.al = al
    v.q, v.qn = index_list(c, 'query_indices', nq, N, 'qn', sorted_=True, mod=al)
    v.qi = (lambda i: i) if v.qn else (lambda i: v.q.o(i))
    c.fact('number of queries', nq <= N)
    c.fact('k in range', And(k >= 1, k <= v.n))
    c.fact('radius positive', Imp(c.a('radius_search'), c.a('radius') > 0))
    v.ol = c.struct('out_len_query_indices', null='maybe', mod=True)
    if al:
        c.points('out_query_indices', v.q.p)
        c.fact('reported queries are collected only under a radius', c.a('radius_search'))
    else:
        c.null('out_query_indices')
    v.out = c.struct('out_nng', mod=True)


def isq(c, QI, x):
    return x < c.v.nq if c.v.qn else QI[x] != -1


def nnv(c, t, h, W):
    """facts of the graph of one search, by vertex.  PV[x], QV[x], FV[x]: positions listed for x, their inverse, their number"""
    PV, QV, FV, QI = W
    v = c.v; n, k, N, si, ds = v.n, v.k, v.N, v.si, v.hd.ds; rad = c.a('radius_search'); R = RAD(c.a('radius'))
    x, i, j, y = ivars('x', 'i', 'j', 'y')
    full = And(0 <= x, x < N, t(x) < t(x + 1))
    D = lambda x, y: DIST(ds, x, si(y))
    r = [('rows hold k arcs or none', forall([x], Imp(And(0 <= x, x < N), And(Or(t(x + 1) == t(x), t(x + 1) == t(x) + k), Imp(t(x) < t(x + 1), And(isq(c, QI, x), FV[x] == k)), Imp(And(isq(c, QI, x), FV[x] == k), t(x) < t(x + 1)))), [t(x + 1), FV[x]])),
         ('numbers listed', forall([x], Imp(And(0 <= x, x < N, isq(c, QI, x)), And(0 <= FV[x], FV[x] <= k, Imp(Not(rad), FV[x] == k))), [FV[x]])),
         ('arcs lead to the listed points', forall([x, j], Imp(And(full, 0 <= j, j < k), h(t(x) + j) == si(PV[x][j])), [(t(x), PV[x][j])])),
         ('listed points', forall([x, j], Imp(And(0 <= x, x < N, isq(c, QI, x), 0 <= j, j < FV[x]), And(0 <= PV[x][j], PV[x][j] < n, QV[x][PV[x][j]] == j, Imp(rad, D(x, PV[x][j]) <= R))), [PV[x][j]])),
         ('ordered by distance', forall([x, i, j], Imp(And(0 <= x, x < N, isq(c, QI, x), 0 <= i, i <= j, j < FV[x]), D(x, PV[x][i]) <= D(x, PV[x][j])), [(PV[x][i], PV[x][j])])),
         ('points left out are not closer', forall([x, y], Imp(And(0 <= x, x < N, isq(c, QI, x), 0 <= y, y < n), Ite(QV[x][y] == -1, Or(And(rad, D(x, y) > R), And(FV[x] == k, D(x, y) >= D(x, PV[x][k - 1]))), And(0 <= QV[x][y], QV[x][y] < FV[x], PV[x][QV[x][y]] == y))), [QV[x][y]]))]
    return r


def ms_post(c):
    v = c.v

    def ok():
        out = v.out; N, k = v.N, v.k; M = out('max_arcs')
        c.fact('size of the graph', And(out('vertices') == N, M >= 0, M <= c.const('ISCC_ARCINDEX_MAX')), C8)
        t = c.fresh(out.loc('tail_ptr'), N + 1)
        h = c.fresh(out.loc('head'), M, null=(M == 0))
        for nm, f in valid_facts(N, M, t.at, h.at):
            c.fact('result: ' + nm, f, C8)
        c.fact('storage fits exactly', M == t.at(N), C8)
        W = ms_witness(c)
        for nm, f in nnv(c, t.at, h.at, W):
            c.fact(nm, f, C8, drop=('by vertex: ordered', 'by vertex: points left', 'by vertex: listed', 'by vertex: numbers') if nm.startswith('arcs') else ())
        if v.qn:
            qf = T
        else:
            x, j = ivars('x', 'j'); QI = W[3]
            qf = And(forall([x], Or(QI[x] == -1, And(0 <= QI[x], QI[x] < v.nq, v.qi(QI[x]) == x)), [QI[x]]), forall([j], Imp(And(0 <= j, j < v.nq), QI[v.qi(j)] == j), [v.qi(j)]))
        c.fact('positions of the queries', qf, C8)
        R = c.witness('NOK', IS) if c.producing() or 'NOK' in c.st.ghosts else I(0)
        c.fact('number reported', And(0 <= R, R <= v.nq, Imp(Not(v.ol.isnull), v.ol('') == R) if not is_true(v.ol.isnull) else T, Imp(Not(c.a('radius_search')), R == v.nq)), C8)
        c.fact('number of arcs', And(t.at(N) == MUL(R, k), Imp(R >= 1, t.at(N) >= k)), C8)
        if v.al:
            q, i, j = ivars('q', 'i', 'j'); VR = ghost(c, 'VR', AI); FV = W[2]
            c.fact('reported queries are collected in order', And(
                forall([i, j], Imp(And(0 <= i, i < j, j < R), v.q.at(i) < v.q.at(j)), [(v.q.at(i), v.q.at(j))]),
                forall([q], Imp(And(0 <= q, q < R), And(0 <= v.q.at(q), v.q.at(q) < N, t.at(v.q.at(q)) < t.at(v.q.at(q) + 1), VR[v.q.at(q)] == q)), [v.q.at(q)]),
                forall([q], Imp(And(0 <= q, q < N, t.at(q) < t.at(q + 1)), And(0 <= VR[q], VR[q] < R, v.q.at(VR[q]) == q)), [VR[q], t.at(q + 1)])), C8)
    return [('ok', c.ret == EC(c, 'OK'), ok), ('error no memory', And(c.ret == EC(c, 'NO_MEMORY'), oom(c)), None),
            ('error too large', c.ret == EC(c, 'TOO_LARGE_PROBLEM'), None), ('error search', c.ret == EC(c, 'DIST_SEARCH_ERROR'), None)]


def ms_witness(c):
    return [ghost(c, n, s) for n, s in (('PV', AAI), ('QV', AAI), ('FV', AI), ('QI', AI))]


def _okl(L):
    return L.arr('ok_q')


def _ms_facts(L, i, o, OK):
    """rows below vertex i are written, o reported queries passed"""
    c = L.c; k = c.v.k; VR = L.g('VR'); T_ = vc_out(L, 'tail_ptr').at; x, r, a, b = ivars('x', 'r', 'a', 'b')
    return [('next row', And(T_(i) == MUL(o, k), MUL(o, k) >= 0, L.off('write_tail_ptr') == i + 1)),
            ('rows written', forall([x], Imp(And(0 <= x, x < i), Or(And(VR[x] == -1, T_(x + 1) == T_(x)), And(0 <= VR[x], VR[x] < o, OK(VR[x]) == x, T_(x) == MUL(VR[x], k), T_(x + 1) == T_(x) + k))), [VR[x], T_(x + 1)])),
            ('queries passed', forall([r], Imp(And(0 <= r, r < o), And(OK(r) < i, VR[OK(r)] == r)), [OK(r)])),
            ('rows ordered', And(T_(0) == 0, forall([a, b], Imp(And(0 <= a, a <= b, b <= i), T_(a) <= T_(b)), [(T_(a), T_(b))]), forall([a], Imp(And(0 <= a, a <= i), And(0 <= T_(a), T_(a) <= MUL(o, k))), [T_(a)])))]


def vc_out(L, f):
    out = L.c.v.out
    return AV_(L, out._rd(L.st, f), dict(out.t.fields)[f].to)


def _okv(L):
    """the list of reported queries the loop runs over, from its start"""
    p = L.v('ok_q'); o = p.off
    return (lambda r: AV_(L, Ptr(p.obj, 0), L.c.eng.prog.protos['iscc_make_nng_from_search_object'].ret if False else L._val(L.st, 'ok_q').t.to).at(r)), o


def _ms0(L):
    OK, o = _okv(L); i = L.v('i'); c = L.c; r = z3.Int('r'); nok = L.v('num_ok_queries')
    return [('position', And(0 <= o, o <= nok, 0 <= i, i <= c.v.N, o <= i))] + _ms_facts(L, i, o, OK) + [('queries to come', forall([r], Imp(And(o <= r, r < nok), OK(r) >= i), [OK(r)]))]


def _ms1(L):
    OK, o = _okv(L); i = L.v('i'); c = L.c
    return [('position', And(0 <= o, 0 <= i, i <= OK(o), o <= i))] + _ms_facts(L, i, o, OK)


def _nok_facts(L):
    nl(L, 'mono', L.off('ok_q'), L.v('num_ok_queries'), L.c.v.k)
    nl(L, 'row', L.off('ok_q'), L.v('num_ok_queries'), L.c.v.k)
    nl(L, 'succ', L.off('ok_q'), L.c.v.k)
    nl(L, 'mono', L.v('num_ok_queries'), L.c.v.nq, L.c.v.k)


def _ms0_g0(L):
    _vr0(L)
    OK, o = _okv(L); c = L.c; v = c.v; r, a, b = ivars('r', 'a', 'b'); G = L.st.ghosts; QR = G['iscc_nearest_neighbor_search.QR']; nok = L.v('num_ok_queries')
    L.lemma('reported queries', forall([r], Imp(And(0 <= r, r < nok), And(OK(r) == v.qi(QR[r]), 0 <= OK(r), OK(r) < v.N)), [OK(r)]), C8)
    L.lemma('reported queries ordered', forall([a, b], Imp(And(0 <= a, a < b, b < nok), And(QR[a] < QR[b], OK(a) < OK(b))), [(OK(a), OK(b))]), C8)
    _ms_bound(L)


def _ms_bound(L):
    nl(L, 'mono', L.v('num_ok_queries'), L.c.v.nq, L.c.v.k)
    nl(L, 'mono', I(0), L.c.v.nq, L.c.v.k)


def _ms0_step(L):
    i = L.v('i') - 1; o = L.off('ok_q') - 1
    L.setg('VR', z3.Store(L.g('VR'), i, o))


def _vr0(L):
    L.setg('VR', const('VR', AI)); L.assume_def(MUL(I(0), L.c.v.k) == 0, 'product with zero')


def _ms2(L):
    c = L.c; q = L.v('q')
    return _ms_facts(L, q, q, lambda r: r)


def _ms2_step(L):
    q = L.v('q') - 1
    L.setg('VR', z3.Store(L.g('VR'), q, q))


def _ms3(L):
    c = L.c; i = L.off('write_tail_ptr') - 1; nok = L.v('num_ok_queries')
    OK = L.entry.okf if hasattr(L.entry, 'okf') else None
    if c.a('radius_search') is None:
        pass
    return [('position', And(nok <= i + 0, 0 <= i, i <= c.v.N))] + _ms_facts(L, i, nok, _final_ok(L))


def _final_ok(L):
    c = L.c
    if L.has('dist_out_query_indices') and not is_true(L.eng.isnull(L.v('dist_out_query_indices'))):
        A = L.arr('dist_out_query_indices')
        return lambda r: A.at(r)
    if not c.v.qn:
        return lambda r: c.v.q.at(r)
    return lambda r: r


def _ms3_step(L):
    i = L.off('write_tail_ptr') - 2
    L.setg('VR', z3.Store(L.g('VR'), i, I(-1)))


def _ms1_step(L):
    L.setg('VR', z3.Store(L.g('VR'), L.v('i') - 1, I(-1)))


def _ms3_exit(L):
    """by vertex instead of by query"""
    c = L.c; st = L.st; v = c.v; G = st.ghosts; x = z3.Int('x')
    key = 'iscc_nearest_neighbor_search.'
    P, Q, Fq, RK, QR = [G[key + n] for n in ('Pq', 'Qq', 'Fq', 'RK', 'QR')]
    PV, QV, FV = const('PV', AAI), const('QV', AAI), const('FV', AI)
    QI = inverse_exists(st, v.qi, v.nq) if not v.qn else const('QI', AI)
    q = (lambda x: x) if v.qn else (lambda x: QI[x])
    for A, B_ in ((PV, P), (QV, Q), (FV, Fq)):
        L.assume_def(forall([x], A[x] == B_[q(x)], [A[x]]), 'ghost by vertex')
    for n, a in (('PV', PV), ('QV', QV), ('FV', FV), ('QI', QI)):
        L.setg(n, a)
    L.setg('NOK', L.v('num_ok_queries'))
    VR = L.g('VR'); N, k, n = v.N, v.k, v.n; T_ = vc_out(L, 'tail_ptr').at; h = vc_out(L, 'head').at; x, j, p = ivars('x', 'j', 'p'); OK = _final_ok(L)
    # instances: the query a written row belongs to
    L.lemma('rows written belong to reported queries', forall([x], Imp(And(0 <= x, x < N, VR[x] != -1), And(0 <= VR[x], VR[x] < RK[v.nq], q(x) == QR[VR[x]], isq(c, QI, x), FV[x] == k)), [VR[x]]), C8)
    L.lemma('reported queries have a row', forall([x], Imp(And(0 <= x, x < N, isq(c, QI, x), FV[x] == k), And(VR[x] == RK[q(x)], VR[x] >= 0)), [FV[x]]), C8)
    L.lemma('rows hold k arcs or none', forall([x], Imp(And(0 <= x, x < N), Or(And(VR[x] == -1, T_(x + 1) == T_(x)), And(VR[x] >= 0, T_(x) == MUL(VR[x], k), T_(x + 1) == T_(x) + k))), [T_(x + 1), VR[x]]), C8)
    NOISE = ('ordered by distance', 'points left out', 'rank ordered', 'numbers listed')

    L.by('row of the query', forall([x], Imp(And(0 <= x, x < N, T_(x) < T_(x + 1)), And(VR[x] >= 0, VR[x] == RK[q(x)], 0 <= q(x), q(x) < v.nq, T_(x) == MUL(VR[x], k), T_(x + 1) == T_(x) + k, T_(x + 1) <= T_(N), T_(x) >= 0, FV[x] == k, Fq[q(x)] == k)), [T_(x + 1)]), None, C8, drop=NOISE)
    L.by('arcs', forall([x, j], Imp(And(0 <= x, x < N, T_(x) < T_(x + 1), 0 <= j, j < k), And(h(T_(x) + j) == v.si(PV[x][j]), 0 <= PV[x][j], PV[x][j] < n, 0 <= T_(x) + j, T_(x) + j < T_(N))), [(T_(x + 1), PV[x][j])]), None, C8, drop=NOISE + ('rank', 'queries passed', 'rows written', 'have a row', 'inverse list', 'rows hold'))
    L.forget('row of the query')
    RO = rows_exist(st, T_, N)

    def rows():
        L.lemma('arcs by position', forall([x, j, p], Imp(And(0 <= x, x < N, T_(x) < T_(x + 1), 0 <= j, j < k, p == T_(x) + j), h(p) == v.si(PV[x][j])), [(T_(x + 1), PV[x][j], h(p))]), C8)
        L.lemma('heads of a row', forall([p], Imp(And(0 <= p, p < T_(N)), And(T_(RO[p]) < T_(RO[p] + 1), T_(RO[p] + 1) == T_(RO[p]) + k, h(p) == v.si(PV[RO[p]][p - T_(RO[p])]))), [h(p)]), C8)
    L.by('heads', forall([p], Imp(And(0 <= p, p < T_(N)), And(h(p) >= 0, h(p) < N)), [h(p)]), rows, C8, drop=NOISE + ('listed', 'reported', 'rank', 'queries passed'))
    for nm, f in nnv(c, T_, h, (PV, QV, FV, QI)):
        L.by(nm, f, None, C8, drop=('rank ordered',))
        L.st.pc[-1].n = 'by vertex: ' + nm
    L.lemma('number reported', And(0 <= RK[v.nq], L.v('num_ok_queries') == RK[v.nq], RK[v.nq] <= v.nq, Imp(Not(c.a('radius_search')), RK[v.nq] == v.nq)))
    L.st.pc[:] = [f for f in L.st.pc if f.n.startswith('by vertex') or not any(d in f.n for d in ('listed', 'reported neigh', 'ordered by distance', 'points left out', 'rank', 'ghost by vertex', 'heads of'))]



LS = LoopSpec
r = reg('iscc_make_nng_from_search_object', _ms_pre, ms_post,
        loops={0: LS(_ms0, ghosts=('VR',), ghost0=_ms0_g0, head=_nok_facts, step=_ms0_step),
               1: LS(_ms1, ghosts=('VR',), step=_ms1_step),
               2: LS(_ms2, ghosts=('VR',), ghost0=lambda L: (_vr0(L), _ms_bound(L)), head=lambda L: (nl(L, 'succ', L.v('q'), L.c.v.k), nl(L, 'row', L.v('q'), L.c.v.nq, L.c.v.k)), step=_ms2_step),
               3: LS(_ms3, ghosts=('VR',), step=_ms3_step, exit=_ms3_exit)},
        props=('C08', 'C01', 'C02', 'C11', 'C12', 'C16'))
r.variants = [{'qn': a, 'sn': b, 'on': o} for a in (True, False) for b in (True, False) for o in ('null', 'alias') if not (a and o == 'alias')]


# ---------------------------------------------------------------- search object made and closed around it
NNW = (('PV', AAI), ('QV', AAI), ('FV', AI), ('QI', AI), ('VR', AI), ('NOK', IS))


def _mn_pre(c):
    v = c.v
    d, N = ds_arg(c)
    nn = c.a('num_data_points'); n = c.a('len_search_indices')
    c.fact('number of points', And(nn == N, N >= 2))
    a, nul = index_list(c, 'search_indices', n, N, 'sn')
    v.hd = H(); v.hd.ds, v.hd.N, v.hd.n = d, N, n
    v.n = n; v.sa = a
    v.si = (lambda i: i) if nul else (lambda i: a.o(i))
    v.hd.si = v.si
    c.fact('no more search points than points', n <= N)
    ms_common(c, nn, c.a('len_query_indices'), c.a('k'))


def _mn_post(c):
    if not c.producing():
        c.adopt('iscc_make_nng_from_search_object', [n for n, _ in NNW])
    return ms_post(c)


r = reg('iscc_make_nng', _mn_pre, _mn_post, props=('C08', 'C01', 'C02', 'C11', 'C12', 'C16'))
r.variants = [{'qn': a, 'sn': b, 'on': o} for a in (True, False) for b in (True, False) for o in ('null', 'alias') if not (a and o == 'alias')]


# ---------------------------------------------------------------- each row of a search point leads to itself
def _sm_pre(c):
    v = c.v
    v.sv, v.t, v.h = dg_in(c, 'nng', mod_head=True)
    N = v.sv('vertices'); v.N = N
    v.n = c.a('len_search_indices')
    v.s, v.nul = index_list(c, 'search_indices', v.n, N, 'sn')


def sm_facts(t, h, h0, N, DN, SP, NS):
    """DN[x]: handled; SP[x]: position of the arc to itself; NS[x]: there was none, so the last arc became one"""
    x, p = ivars('x', 'p')
    row = And(0 <= x, x < N, t(x) <= p, p < t(x + 1))
    return [('arc to itself', forall([x], Imp(And(0 <= x, x < N, t(x) < t(x + 1), DN[x]), And(t(x) <= SP[x], SP[x] < t(x + 1), h(SP[x]) == x, Ite(NS[x], SP[x] == t(x + 1) - 1, h0(SP[x]) == x))), [t(x + 1), SP[x]])),
            ('other arcs are kept', forall([x, p], Imp(row, Or(h(p) == h0(p), And(DN[x], NS[x], p == SP[x]))), [(t(x + 1), h(p)), (t(x + 1), h0(p))])),
            ('only rows without such an arc are changed', forall([x, p], Imp(And(row, DN[x], NS[x]), h0(p) != x), [(t(x + 1), h0(p))]))]


def sm_dn(c, x, hi=None):
    return None


def _sm_post(c):
    v = c.v; x, s = ivars('x', 's'); N = v.N
    DN, SP, NS = [ghost(c, n, srt) for n, srt in (('DN', AB), ('SP', AI), ('NS', AB))]

    def body():
        for nm, f in sm_facts(v.t.at, v.h.at, v.h.o, N, DN, SP, NS):
            c.fact(nm, f, C8)
        if v.nul:
            c.fact('all search points', forall([x], Imp(And(0 <= x, x < N), DN[x] == (x < v.n)), [DN[x]]), C8)
        else:
            c.fact('all search points', forall([s], Imp(And(0 <= s, s < v.n), DN[v.s.at(s)]), [v.s.at(s)]), C8)
        for nm, f in valid_facts(N, v.sv('max_arcs'), v.t.at, v.h.at):
            c.fact('result: ' + nm, f, C8)
    return [('done', T, body)]


def _sm_outer(L):
    c = L.c; v = c.v; x, s, p = ivars('x', 's', 'p'); DN = L.g('DN')
    r = sm_facts(v.t.at, v.h.at, v.h.o, v.N, DN, L.g('SP'), L.g('NS'))
    if v.nul:
        r.append(('handled', forall([x], Imp(And(0 <= x, x < v.N), DN[x] == (x < L.v('search_point'))), [DN[x]])))
    else:
        r.append(('handled', forall([s], Imp(And(0 <= s, s < L.v('s')), DN[v.s.at(s)]), [v.s.at(s)])))
    r.append(('heads are vertices', forall([p], Imp(And(0 <= p, p < v.t.at(v.N)), And(v.h.at(p) >= 0, v.h.at(p) < v.N)), [v.h.at(p)])))
    r.append(('rows are ordered', And(*[f for n, f in valid_facts(v.N, v.sv('max_arcs'), v.t.at, v.h.at)[:3]])))
    return r


def _sm_inner(L):
    v = L.c.v; u = L.v('search_point'); p = z3.Int('p'); o = L.off('v_arc')
    return [('position', And(v.t.at(u) < o, o <= v.t.at(u + 1))), ('none so far', forall([p], Imp(And(v.t.at(u) <= p, p < o), v.h.at(p) != u), [v.h.at(p)]))]


def _sm_g0(L):
    for n, srt in (('SP', AI), ('NS', AB)):
        L.setg(n, const(n, srt))
    L.setg('DN', z3.K(IS, z3.BoolVal(False))); L.setg('STOP', I(0))


def _sm_step(L):
    c = L.c; v = c.v; u = L.p('search_point') if v.nul else v.s.at(L.p('s'))
    t = v.t.at; DN, SP, NS = L.g('DN'), L.g('SP'), L.g('NS')
    # where the scan of this row stopped (at its first arc if that is the one)
    h0 = z3.Select(L.eng.os(L.prev, v.h.p.obj).c[''], add(v.h.p.off, t(u)))
    stop = Ite(And(t(u) < t(u + 1), h0 != u), L.g('STOP'), t(u))
    L.setg('DN', z3.Store(DN, u, z3.BoolVal(True)))
    miss = And(t(u) < t(u + 1), stop == t(u + 1))
    L.setg('SP', z3.Store(SP, u, Ite(DN[u], SP[u], Ite(miss, stop - 1, stop))))
    L.setg('NS', z3.Store(NS, u, Ite(DN[u], NS[u], miss)))


def _sm_stop(L):
    L.setg('STOP', L.off('v_arc'))


LSM = lambda inv=_sm_outer: LS(inv, ghosts=('DN', 'SP', 'NS', 'STOP'), ghost0=_sm_g0, step=_sm_step)
r = reg('iscc_ensure_self_match', _sm_pre, _sm_post, loops={0: LSM(), 1: LS(_sm_inner, exit=_sm_stop), 2: LSM(), 3: LS(_sm_inner, exit=_sm_stop)}, props=('C08', 'C01', 'C02', 'C12'))
r.variants = [{'sn': True}, {'sn': False}]


# ---------------------------------------------------------------- the neighbour graph of the size constraint
def primary_arg(c, N, mod=False):
    v = c.v
    v.pn = nullness(c, 'primary_data_points', 'pn')
    v.np = c.a('len_primary_data_points')
    i, j = ivars('i', 'j')
    v.pr = c.arr('primary_data_points', v.np, null=T if v.pn else F)
    if not v.pn:
        c.fact('primary points: number', And(v.np >= 1, v.np <= N))
        c.fact('primary points: data points', forall([i], Imp(And(0 <= i, i < v.np), And(v.pr.at(i) >= 0, v.pr.at(i) < N)), [v.pr.at(i)]))
        c.fact('primary points: sorted', forall([i, j], Imp(And(0 <= i, i < j, j < v.np), v.pr.at(i) < v.pr.at(j)), [(v.pr.at(i), v.pr.at(j))]))


def _sg_pre(c):
    v = c.v
    d, N = ds_arg(c)
    c.fact('number of points', And(c.a('num_data_points') == N, N >= 2))
    v.k = c.a('size_constraint')
    c.fact('size constraint in range', And(v.k >= 2, v.k <= N))
    primary_arg(c, N)
    c.fact('radius positive', Imp(c.a('radius_constraint'), c.a('radius') > 0))
    v.out = c.struct('out_nng', mod=True)
    v.hd = H(); v.hd.ds, v.hd.N, v.hd.n = d, N, N; v.hd.si = lambda i: i
    v.n, v.si, v.N = N, v.hd.si, N
    v.qn = v.pn; v.nq = N if v.pn else v.np
    v.qi = (lambda i: i) if v.pn else (lambda i: v.pr.o(i))


class Sub:
    """the search facts of nnv for another context"""

    def __init__(s, c):
        s.v = c.v; s.args = c.args; s.c = c

    def a(s, n):
        return s.c.a({'radius_search': 'radius_constraint'}.get(n, n))


def search_facts(c, W):
    """what the search listed for each query: PV, QV, FV"""
    z = lambda x: I(0)
    return [f for f in nnv(Sub(c), z, z, W) if f[0] not in ('rows hold k arcs or none', 'arcs lead to the listed points')] + qi_facts(c, W[3])


def qi_facts(c, QI):
    v = c.v
    if v.qn:
        return []
    x, j = ivars('x', 'j')
    return [('positions of the queries', And(forall([x], Or(QI[x] == -1, And(0 <= QI[x], QI[x] < v.nq, v.qi(QI[x]) == x)), [QI[x]]), forall([j], Imp(And(0 <= j, j < v.nq), QI[v.qi(j)] == j), [v.qi(j)])))]


def nng_rows(c, t, h, W, SL):
    """rows of queries with k points in reach hold the k-1 nearest others; SL[x]: the place of x itself in the listing (the last, if x is not listed)"""
    PV, QV, FV, QI = W; v = c.v; k, N = v.k, v.N; x, j, p = ivars('x', 'j', 'p')
    full = And(0 <= x, x < N, t(x) < t(x + 1)); Z = Ite(p - t(x) >= SL[x], p - t(x) + 1, p - t(x))
    return [('rows of queries with enough points in reach, and only those', forall([x], Imp(And(0 <= x, x < N), And(Or(t(x + 1) == t(x), t(x + 1) == t(x) + k - 1), (t(x) < t(x + 1)) == And(isq(c, QI, x), FV[x] == k))), [t(x + 1)])),
            ('place of the point itself', forall([x], Imp(full, And(SL[x] == Ite(QV[x][x] == -1, k - 1, QV[x][x]), 0 <= SL[x], SL[x] < k)), [SL[x]])),
            ('arcs lead to the nearest other points', forall([x, p], Imp(And(0 <= x, x < N, t(x) <= p, p < t(x + 1)), And(0 <= Z, Z < k, Z != SL[x], h(p) == PV[x][Z], QV[x][h(p)] == Z)), [(t(x + 1), h(p))])),
            ('all of them', forall([x, j], Imp(And(full, 0 <= j, j < k, j != SL[x]), And(h(t(x) + j - Ite(j > SL[x], I(1), I(0))) == PV[x][j], QV[x][PV[x][j]] == j)), [(SL[x], PV[x][j])])),
            ('no arc to itself', forall([x, p], Imp(And(0 <= x, x < N, t(x) <= p, p < t(x + 1)), h(p) != x), [(t(x + 1), h(p))])),
            ('no arc twice', no_repeats(t, h, N))]


SGW = (('PV', AAI), ('QV', AAI), ('FV', AI), ('QI', AI))


def _sg_post(c):
    v = c.v; N, k = v.N, v.k
    if not c.producing():
        c.adopt('iscc_make_nng', [n for n, _ in SGW])

    def wit():
        return [ghost(c, n, s) for n, s in SGW]

    def ok():
        W = wit(); out = v.out; M = out('max_arcs')
        t = c.fresh(out.loc('tail_ptr'), N + 1)
        h = c.fresh(out.loc('head'), M, null=(M == 0))
        if not c.producing():
            _sg_proof(c, W, t.at, h.at)
        SL = ghost(c, 'SL', AI)
        c.fact('size of the graph', And(out('vertices') == N, M >= 1, M <= c.const('ISCC_ARCINDEX_MAX'), M == t.at(N)), C8)
        for nm, f in valid_facts(N, M, t.at, h.at):
            c.fact('result: ' + nm, f, C8)
        for nm, f in nng_rows(c, t.at, h.at, W, SL) + search_facts(c, W):
            c.fact(nm, f, C8)

    def nosol():
        W = wit(); x = z3.Int('x')
        for nm, f in search_facts(c, W):
            c.fact(nm, f, C8)
        c.fact('no query has enough points in reach', forall([x], Imp(And(0 <= x, x < N, isq(c, W[3], x)), W[2][x] < k), [W[2][x]]), C8 + ('C10',))
    return [('ok', c.ret == EC(c, 'OK'), ok), ('error no solution', And(c.ret == EC(c, 'NO_SOLUTION'), c.a('radius_constraint')), nosol), ('error no memory', And(c.ret == EC(c, 'NO_MEMORY'), oom(c)), None),
            ('error too large', c.ret == EC(c, 'TOO_LARGE_PROBLEM'), None), ('error search', c.ret == EC(c, 'DIST_SEARCH_ERROR'), None)]


def _sg_proof(c, W, t, h):
    PV, QV, FV, QI = W; v = c.v; k, N = v.k, v.N; x, j, p = ivars('x', 'j', 'p')
    e, d = c.call('iscc_ensure_self_match'), c.call('iscc_delete_loops')
    t0, h0, h1 = e.v.t.o, e.v.h.o, d.v.h.o
    G = c.st.ghosts
    if 'iscc_delete_loops.CD' not in G:
        c.lemma('a graph without arcs does not get here', F, C8)
        raise Vacuous()
    SP, NS, CD, ROW = G['iscc_ensure_self_match.SP'], G['iscc_ensure_self_match.NS'], G['iscc_delete_loops.CD'], G['iscc_delete_loops.ROW']
    c.setg('SL', const('SL', AI)); SL = G['SL'] if 'SL' in G else c.st.ghosts['SL']
    c.assume_def(forall([x], SL[x] == Ite(QV[x][x] == -1, k - 1, QV[x][x]), [SL[x]]), 'ghost')
    full = And(0 <= x, x < N, t0(x) < t0(x + 1))
    c.lemma('rows of positions', forall([x, p], Imp(And(0 <= x, x < N, t0(x) <= p, p < t0(x + 1)), ROW[p] == x), [(t0(x + 1), ROW[p])]), C8)
    c.lemma('search rows', forall([x], Imp(full, And(t0(x + 1) == t0(x) + k, FV[x] == k, isq(c, QI, x), t0(x) >= 0, t0(x + 1) <= t0(N))), [t0(x + 1)]), C8)
    c.lemma('searched arcs', forall([x, j], Imp(And(full, 0 <= j, j < k), And(h0(t0(x) + j) == PV[x][j], QV[x][PV[x][j]] == j)), [(t0(x + 1), PV[x][j])]), C8)
    c.lemma('searched arcs by position', forall([x, p], Imp(And(full, t0(x) <= p, p < t0(x + 1)), And(h0(p) == PV[x][p - t0(x)], QV[x][PV[x][p - t0(x)]] == p - t0(x))), [(t0(x + 1), h0(p))]), C8)
    c.lemma('place of the arc to itself', forall([x], Imp(full, And(SL[x] == SP[x] - t0(x), 0 <= SL[x], SL[x] < k, h1(SP[x]) == x, Imp(NS[x], QV[x][x] == -1))), [SL[x], t0(x + 1)]), C8)
    row = And(0 <= x, x < N, t0(x) <= p, p < t0(x + 1))
    c.lemma('arcs before loops go', forall([x, p], Imp(row, And(ROW[p] == x, Ite(p == SP[x], h1(p) == x, And(h1(p) == PV[x][p - t0(x)], h1(p) != x)))), [(t0(x + 1), ROW[p]), (t0(x + 1), h1(p))]), C8)
    c.by('counted', forall([x, p], Imp(row, And(ROW[p] == x, CD[p + 1] == CD[p] + Ite(p == SP[x], I(0), I(1)))), [(t0(x + 1), CD[p])]), None, C8,
         drop=('ordered by distance', 'points left out', 'numbers listed', 'listed points', 'searched arcs', 'only rows without', 'other arcs are kept', 'kept arcs stand', 'listed', 'number of arcs', 'place of'))
    c.induct('kept in a row', [x], p, t0(x), t0(x + 1), lambda p: CD[p] == CD[t0(x)] + (p - t0(x)) - Ite(p > SP[x], I(1), I(0)), [(t0(x + 1), CD[p])], C8, guard=full)
    c.lemma('rows', forall([x], Imp(And(0 <= x, x < N), And(t(x) == CD[t0(x)], t(x + 1) == CD[t0(x + 1)], Ite(t0(x) < t0(x + 1), t(x + 1) == t(x) + k - 1, t(x + 1) == t(x)))), [t(x + 1), t0(x + 1)]), C8)
    x0 = ROW[0]
    c.lemma('some row', And(0 <= x0, x0 < N, t0(x0) < t0(x0 + 1), t(x0) >= 0, t(x0 + 1) == t(x0) + k - 1, t(x0 + 1) <= t(N)), C8)
    c.lemma('arcs', forall([x, p], Imp(And(row, p != SP[x]), And(ROW[p] == x, h(CD[p]) == PV[x][p - t0(x)])), [(t0(x + 1), CD[p])]), C8)
    i = Ite(p - t(x) >= SL[x], p - t(x) + 1, p - t(x))
    NOISE = ('ordered by distance', 'points left out', 'numbers listed', 'arcs before loops go', 'searched arcs by', 'only rows without', 'other arcs are kept', 'arc to itself')
    q = z3.Int('q'); gone = lambda j: Ite(j > SL[x], I(1), I(0))
    c.by('arcs by place', forall([x, j], Imp(And(full, 0 <= j, j < k, j != SL[x]), And(CD[t0(x) + j] == t(x) + j - gone(j), h(CD[t0(x) + j]) == PV[x][j], PV[x][j] != x, QV[x][PV[x][j]] == j)), [(t0(x + 1), PV[x][j])]), None, C8, drop=NOISE[:3] + ('kept arcs', 'counted'))
    c.forget('kept arcs stand', 'kept arcs are counted', 'arcs before loops go', 'searched arcs', 'only rows without', 'other arcs are kept', 'arc to itself', 'counted', 'kept in a row', 'rows of positions', 'arcs lead to')
    c.st.pc[:] = [f for f in c.st.pc if f.n != 'arcs']
    c.lemma('full rows', forall([x], Imp(And(0 <= x, x < N, t(x) < t(x + 1)), full), [t(x + 1)]), C8)
    LOW = NOISE[:3] + ('listed points',)
    c.by('arcs by place and position', forall([x, j, q], Imp(And(0 <= x, x < N, t(x) < t(x + 1), 0 <= j, j < k, j != SL[x], q == t(x) + j - gone(j)), And(h(q) == PV[x][j], PV[x][j] != x, QV[x][PV[x][j]] == j)), [(t(x + 1), PV[x][j], h(q))]), None, C8, only=('full rows', 'rows', 'arcs by place'))
    row = And(0 <= x, x < N, t(x) <= p, p < t(x + 1))
    for nm, g, i in (('before', p - t(x) < SL[x], p - t(x)), ('after', p - t(x) >= SL[x], p - t(x) + 1)):
        c.by('arcs ' + nm + ' the point itself', forall([x, p], Imp(And(row, g), And(h(p) == PV[x][i], 0 <= i, i < k, i != SL[x], QV[x][h(p)] == i, h(p) != x)), [(t(x + 1), h(p))]), None, C8, drop=LOW)



r = reg('iscc_get_nng_with_size_constraint', _sg_pre, _sg_post, props=('C08', 'C01', 'C11', 'C12', 'C16', 'C10'))
r.variants = [{'pn': True}, {'pn': False}]


# ---------------------------------------------------------------- the graph with type constraints (rows trusted: see DESIGN; storage and errors: typegraph.py)
def _tg_pre(c):
    v = c.v; i = z3.Int('i')
    v.ds, v.N = ds_arg(c); N = v.N
    v.k = c.a('size_constraint'); v.nt = c.a('num_types')
    c.fact('number of points', And(c.a('num_data_points') == N, N >= 2, v.k >= 2, v.k <= N, v.nt >= 2, v.nt <= 65535))
    v.tc = c.arr('type_constraints', v.nt); v.tl = c.arr('type_labels', N)
    c.fact('type labels', forall([i], Imp(And(0 <= i, i < N), And(0 <= v.tl.at(i), v.tl.at(i) < v.nt)), [v.tl.at(i)]))
    primary_arg(c, N)
    c.fact('radius positive', Imp(c.a('radius_constraint'), c.a('radius') > 0))
    v.out = c.struct('out_nng', mod=True)


TGW = (('CM', AAI), ('CI', AAI), ('CP', AAI), ('TM', z3.ArraySort(IS, AAI)), ('TI', AAI))


def type_rows(N, k, nt, t, h, tl, tc, prim, W):
    """CM[x][i], CP[x][i], CI[x][y]: k different points of the closed neighbourhood of x; TM[x][T][j], TI[x][y]: as many points of type T in it as the constraint says"""
    CM, CI, CP, TM, TI = (W[n] for n, _ in TGW); x, i, p, T_, j = ivars('x', 'i', 'p', 'T', 'j'); full = And(0 <= x, x < N, t(x) < t(x + 1)); y = CM[x][i]; z = TM[x][T_][j]
    inrow = lambda y, q: Or(y == x, And(t(x) <= q, q < t(x + 1), h(q) == y))
    return [('rows', forall([x], Imp(And(0 <= x, x < N), And(t(x + 1) - t(x) <= k, Imp(t(x) < t(x + 1), prim(x)))), [t(x + 1)])),
            ('closed neighbourhoods are large enough', forall([x, i], Imp(And(full, 0 <= i, i < k), And(0 <= y, y < N, inrow(y, CP[x][y]), CI[x][y] == i)), [CM[x][i]])),
            ('closed neighbourhoods meet the type constraints', forall([x, T_, j], Imp(And(full, 0 <= T_, T_ < nt, 0 <= j, j < tc(T_)), And(0 <= z, z < N, inrow(z, CP[x][z]), TI[x][z] == j, tl(z) == T_)), [TM[x][T_][j]])),
            ('no arc twice', no_repeats(t, h, N))]


def _tg_post(c):
    v = c.v; N = v.N

    def ok():
        out = v.out; M = out('max_arcs')
        t = c.fresh(out.loc('tail_ptr'), N + 1); h = c.fresh(out.loc('head'), M, null=(M == 0))
        W = {n: ghost(c, n, s) for n, s in TGW}
        PQ = ghost(c, 'PQ', AI); x = z3.Int('x')
        c.fact('size of the graph', And(out('vertices') == N, M >= 1, M <= c.const('ISCC_ARCINDEX_MAX'), t.at(N) >= 1, t.at(N) <= M), C8)
        for nm, f in valid_facts(N, M, t.at, h.at) + type_rows(N, v.k, v.nt, t.at, h.at, v.tl.at, v.tc.at, lambda x: T if v.pn else PQ[x] != -1, W):
            c.fact(nm, f, ('C02',))
        if not v.pn:
            c.fact('primary points by number', forall([x], Or(PQ[x] == -1, And(0 <= PQ[x], PQ[x] < v.np, v.pr.o(PQ[x]) == x)), [PQ[x]]))
    return [('ok', c.ret == EC(c, 'OK'), ok), ('error no solution', c.ret == EC(c, 'NO_SOLUTION'), None), ('error invalid', c.ret == EC(c, 'INVALID_INPUT'), None), ('error no memory', And(c.ret == EC(c, 'NO_MEMORY'), oom(c)), None),
            ('error too large', c.ret == EC(c, 'TOO_LARGE_PROBLEM'), None), ('error search', c.ret == EC(c, 'DIST_SEARCH_ERROR'), None)]


r = reg('iscc_get_nng_with_type_constraint', _tg_pre, _tg_post, trusted='which points the rows hold: assumed, checked natively (C02), bounded; storage, validity and errors of the body: proved (typegraph.py)')
