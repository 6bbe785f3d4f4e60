"""dist_search_imp.c and dist_search.h"""
from .base import *

AR = z3.ArraySort(IS, RS)
AI = z3.ArraySort(IS, IS)
PS = z3.Function('psum', AR, IS, IS, IS, RS)      # psum(A, a, b, m): sum of the first m squared differences of rows at a and b, in order
SQF = z3.Function('sqdist', AR, IS, IS, IS, RS)   # sqdist(A, D, i, j) = psum(A, i*D, j*D, D)
C17, C5 = ('C17',), ('C05',)


def ds_view(c, loc):
    ds = c.struct(loc, elem=c.stype('scc_DataSet'))
    n, d = ds('num_data_points'), ds('num_dimensions')
    c.fact('%s: initialized' % ds.name, And(n >= 1, n <= c.const('ISCC_POINTINDEX_MAX'), d >= 1, d <= 65535))
    dm = c.arr(ds.loc('data_matrix'), mul(n, d))
    return ds, dm


def sq(ds, dm, i, j, st=None):
    return SQF(dm.raw(), ds('num_dimensions'), i, j)


# ---------------------------------------------------------------- squared distance
def _sq_pre(c):
    c.v.ds, c.v.dm = ds_view(c, 'data_set')
    n, d = c.v.ds('num_data_points'), c.v.ds('num_dimensions')
    for x in ('index1', 'index2'):
        c.fact(x + ' is a data point', c.a(x) < n)
        nl(c, 'row', c.a(x), n, d)


def _sq_post(c):
    def body():
        A, D = c.v.dm.raw(), c.v.ds('num_dimensions')
        i, j = c.a('index1'), c.a('index2')
        r = SQF(A, D, i, j)
        if c.mode == 'verify':
            c.st.assume(r == PS(A, mul(i, D), mul(j, D), D), 'definition of the squared distance')
        c.fact('sum of the squared differences over all dimensions', c.ret == r, C17 + C5)
        c.fact('not negative', c.ret >= 0, C17 + C5)
    return [('done', T, body)]


def _sq_inv(L):
    c = L.c
    D = c.v.ds('num_dimensions')
    a, b = mul(c.a('index1'), D), mul(c.a('index2'), D)
    m = L.off('data1') - a
    A = c.v.dm.raw()
    return [('within the row', And(m >= 0, m <= D)), ('second row in step', L.off('data2') - b == m), ('partial sum', L.v('tmp_dist') == PS(A, a, b, m)), ('partial sum not negative', L.v('tmp_dist') >= 0)]


def _sq_g0(L):
    c = L.c
    D = c.v.ds('num_dimensions')
    a, b = mul(c.a('index1'), D), mul(c.a('index2'), D)
    L.assume_def(PS(c.v.dm.raw(), a, b, I(0)) == 0, 'psum')


def _sq_step(L):
    c = L.c
    D = c.v.ds('num_dimensions')
    A = c.v.dm.raw()
    a, b = mul(c.a('index1'), D), mul(c.a('index2'), D)
    m = L.p('data1').off - a
    d = FSUB(A[a + m], A[b + m])
    L.assume_def(PS(A, a, b, m + 1) == FADD(PS(A, a, b, m), FMUL(d, d)), 'psum')


reg('iscc_get_sq_dist', _sq_pre, _sq_post, loops={0: LoopSpec(_sq_inv, ghost0=_sq_g0, step=_sq_step)}, props=('C05', 'C17', 'C12'))


# ---------------------------------------------------------------- data set queries
def _chk_pre(c):
    c.v.ds = c.struct('data_set', null='maybe', elem=c.stype('scc_DataSet'))
    c.v.dm = c.arr(c.v.ds.loc('data_matrix'), mul(c.v.ds('num_data_points'), c.v.ds('num_dimensions')), null='maybe')


def _chk_post(c):
    ds = c.v.ds
    ok = And(Not(ds.isnull), ds('data_set_version') == c.const('ISCC_DATASET_STRUCT_VERSION'), ds('num_data_points') != 0, ds('num_dimensions') != 0, Not(c.v.dm.isnull))
    return [('exact', c.ret == ok, None)]


reg('iscc_imp_check_data_set', _chk_pre, _chk_post, props=('C10', 'C13', 'C12'))
reg('iscc_imp_num_data_points', _chk_pre, lambda c: [('exact', c.ret == Ite(c.v.ds.isnull, I(0), c.v.ds('num_data_points')), None)], props=('C10', 'C13', 'C12'))


# ---------------------------------------------------------------- distance matrix and rows
TRI = z3.Function('tri', IS, IS, IS)              # tri(n, a) = a(2n-a-1)/2: pairs (i, j), i < j < n, with i < a
PR = z3.Function('pairrow', IS, IS, IS)           # the k-th pair (row, column) of the lexicographic enumeration
PC = z3.Function('paircol', IS, IS, IS)
QD = z3.Function('cellrow', IS, IS, IS)           # cellrow(C, k) = k div C
QM = z3.Function('cellcol', IS, IS, IS)


def tri_facts(x, n, a):
    """instances of facts about tri(n, a) = a(2n-a-1)/2, proved below over true arithmetic"""
    if 'tri' not in _TL:
        N, A_, T0 = z3.Ints('N A T')
        s = z3.Solver(); s.set('timeout', 20000)
        f = lambda q: q * (2 * N - q - 1)         # twice tri
        s.add(Not(And(f(A_ + 1) == f(A_) + 2 * (N - 1 - A_), f(I(0)) == 0, Imp(And(0 <= A_, A_ < N), And(f(A_) >= 0, f(A_) + 2 * (N - 1 - A_) <= f(N))))))
        if s.check() != z3.unsat:
            raise Unsupported('tri lemma not proved')
        _TL['tri'] = True
    st = x.st
    st.assume(And(TRI(n, a + 1) == TRI(n, a) + (n - 1 - a), TRI(n, I(0)) == 0, Imp(And(0 <= a, a < n), And(TRI(n, a) >= 0, TRI(n, a) + (n - 1 - a) <= TRI(n, n)))), 'tri')


_TL = {}


def _gm_pre(c):
    c.v.ds, c.v.dm = ds_view(c, 'data_set')
    n = c.a('len_point_indices'); N = c.v.ds('num_data_points')
    c.v.pi = c.arr('point_indices', n, null=T if c.variant.get('null') else F)
    k = z3.Int('k')
    c.fact('at least two points', And(n >= 2, Or(Not(c.v.pi.isnull), n <= N), n < (1 << 63)))
    if not c.variant.get('null'):
        c.fact('indices are data points', forall([k], Imp(And(0 <= k, k < n), And(c.v.pi.at(k) >= 0, c.v.pi.at(k) < N)), [c.v.pi.at(k)]))
    c.v.out = c.arr('output_dists', TRI(n, n), mod=True)
    c.v.ix = (lambda i: i) if c.variant.get('null') else (lambda i: c.v.pi.at(i))


def _gm_post(c):
    k = z3.Int('k'); n = c.a('len_point_indices'); out = c.v.out

    def body():
        c.fact('distance of the k-th pair in lexicographic order', forall([k], Imp(And(0 <= k, k < TRI(n, n)),
               And(out.at(k) == FSQRT(sq(c.v.ds, c.v.dm, c.v.ix(PR(n, k)), c.v.ix(PC(n, k)))), 0 <= PR(n, k), PR(n, k) < PC(n, k), PC(n, k) < n)), [out.at(k)]), C17)
    return [('done', c.ret, body)]


def _gm_common(L):
    c = L.c; k = z3.Int('k'); n = c.a('len_point_indices'); out = c.v.out
    o = L.off('output_dists')
    return [('written pairs', forall([k], Imp(And(0 <= k, k < o), And(out.at(k) == FSQRT(sq(c.v.ds, c.v.dm, c.v.ix(PR(n, k)), c.v.ix(PC(n, k)))), 0 <= PR(n, k), PR(n, k) < PC(n, k), PC(n, k) < n)), [out.at(k)]))]


def _gm_outer(L):
    n = L.c.a('len_point_indices')
    return _gm_common(L) + [('write position', L.off('output_dists') == TRI(n, L.v('p1')))]


def _gm_inner(L):
    n = L.c.a('len_point_indices')
    return _gm_common(L) + [('write position', L.off('output_dists') == TRI(n, L.v('p1')) + L.v('p2') - L.v('p1') - 1), ('columns', And(L.v('p2') > L.v('p1'), L.v('p2') <= n))]


def _gm_g0(L):
    c = L.c; n = c.a('len_point_indices')
    tri_facts(L, n, L.v('p1') if L.has('p1') else I(0))


def _gm_in_step(L):
    c = L.c; n = c.a('len_point_indices')
    a, b = L.p('p1'), L.p('p2')
    k = TRI(n, a) + b - a - 1
    # position k is the pair (a, b), and no other (a < b < n): tri(n, .) splits the positions into disjoint rows
    L.assume_def(And(PR(n, k) == a, PC(n, k) == b), 'k-th pair')


_gml = {}
for _b in (0, 2):
    _gml[_b] = LoopSpec(_gm_outer, ghost0=_gm_g0, step=lambda L: tri_facts(L, L.c.a('len_point_indices'), L.v('p1')))
    _gml[_b + 1] = LoopSpec(_gm_inner, ghost0=_gm_g0, step=_gm_in_step)
r = reg('iscc_imp_get_dist_matrix', _gm_pre, _gm_post, loops=_gml, props=('C17', 'C12'))
r.variants = [{'null': True}, {'null': False}]


def _gr_pre(c):
    c.v.ds, c.v.dm = ds_view(c, 'data_set')
    nq, nc = c.a('len_query_indices'), c.a('len_column_indices'); N = c.v.ds('num_data_points')
    k = z3.Int('k')
    c.v.ix = []
    for a, n, key in (('query_indices', nq, 'qn'), ('column_indices', nc, 'cn')):
        nul = c.variant.get(key)
        v = c.arr(a, n, null=T if nul else F)
        c.fact(a + ': length', And(n >= 1, n < (1 << 63), B(True) if not nul else n <= N))
        if not nul:
            c.fact(a + ' are data points', forall([k], Imp(And(0 <= k, k < n), And(v.at(k) >= 0, v.at(k) < N)), [v.at(k)]))
        c.v.ix.append((lambda i: i) if nul else (lambda i, v=v: v.at(i)))
    c.v.out = c.arr('output_dists', mul(nq, nc), mod=True)


def _gr_spec(c, k):
    C = c.a('len_column_indices')
    return FSQRT(sq(c.v.ds, c.v.dm, c.v.ix[0](QD(C, k)), c.v.ix[1](QM(C, k))))


def _gr_post(c):
    k = z3.Int('k'); out = c.v.out

    def body():
        c.fact('distance of row k div C and column k mod C', forall([k], Imp(And(0 <= k, k < mul(c.a('len_query_indices'), c.a('len_column_indices'))), out.at(k) == _gr_spec(c, k)), [out.at(k)]), C17)
    return [('done', c.ret, body)]


def _gr_outer(L):
    c = L.c; k = z3.Int('k'); o = L.off('output_dists')
    return [('written cells', forall([k], Imp(And(0 <= k, k < o), c.v.out.at(k) == _gr_spec(c, k)), [c.v.out.at(k)])), ('write position', o == mul(L.v('q'), c.a('len_column_indices')))]


def _gr_inner(L):
    c = L.c; k = z3.Int('k'); o = L.off('output_dists')
    return [('written cells', forall([k], Imp(And(0 <= k, k < o), c.v.out.at(k) == _gr_spec(c, k)), [c.v.out.at(k)])), ('write position', o == mul(L.v('q'), c.a('len_column_indices')) + L.v('c'))]


def _gr_og0(L):
    c = L.c
    L.assume_def(MUL(I(0), c.a('len_column_indices')) == 0, 'product with zero')
    L.assume_def(MUL(c.a('len_column_indices'), I(0)) == 0, 'product with zero')


def _gr_g0(L):
    c = L.c; C = c.a('len_column_indices')
    nl(L, 'row', L.v('q'), c.a('len_query_indices'), C)
    nl(L, 'succ', L.v('q'), C)


def _gr_step(L):
    c = L.c; C = c.a('len_column_indices')
    q, cc = L.p('q'), L.p('c')
    k = mul(q, C) + cc
    L.assume_def(And(QD(C, k) == q, QM(C, k) == cc), 'division by C: 0 <= c < C')


_grl = {}
for _b in (0, 2, 4, 6):
    _grl[_b] = LoopSpec(_gr_outer, ghost0=_gr_og0)
    _grl[_b + 1] = LoopSpec(_gr_inner, ghost0=_gr_g0, step=_gr_step)
r = reg('iscc_imp_get_dist_rows', _gr_pre, _gr_post, loops=_grl, props=('C17', 'C12'))
r.variants = [{'qn': a, 'cn': b} for a in (True, False) for b in (True, False)]


# ---------------------------------------------------------------- max dist
def search_object(c, loc, sname, ver, heap=False):
    o = c.struct(loc)
    ds, dm = ds_view(c, o.loc('data_set'))
    n = o('len_search_indices'); N = ds('num_data_points'); k = z3.Int('k')
    nul = c.variant.get('sn')
    si = c.arr(o.loc('search_indices'), n, null=T if nul else F)
    c.fact('search object: length', And(n >= 1, n < (1 << 63), B(True) if not nul else n <= N))
    if not nul:
        c.fact('search indices are data points', forall([k], Imp(And(0 <= k, k < n), And(si.at(k) >= 0, si.at(k) < N)), [si.at(k)]))
    return o, ds, dm, n, ((lambda i: i) if nul else (lambda i: si.at(i))), si


def query_arr(c, loc, n, N):
    nul = c.variant.get('qn'); k = z3.Int('k')
    v = c.arr(loc, n, null=T if nul else F)
    c.fact('queries: length', And(n >= 1, n < (1 << 62), B(True) if not nul else n <= N))
    if not nul:
        c.fact('queries are data points', forall([k], Imp(And(0 <= k, k < n), And(v.at(k) >= 0, v.at(k) < N)), [v.at(k)]))
    return (lambda i: i) if nul else (lambda i: v.at(i))


MEM = z3.Function('insearch', IS, BS)             # arbitrary predicate that holds for every search point


def _md_pre(c):
    c.v.o, c.v.ds, c.v.dm, c.v.n, c.v.si, sv = search_object(c, 'max_dist_object', 'iscc_MaxDistObject', None)
    c.v.qi = query_arr(c, 'query_indices', c.a('len_query_indices'), c.v.ds('num_data_points'))
    nq = c.a('len_query_indices')
    c.v.oi = c.arr('out_max_indices', nq, mod=True)
    c.v.od = c.arr('out_max_dists', nq, mod=True)
    s = z3.Int('s')
    if c.variant.get('sn'):
        c.fact('search predicate', forall([s], Imp(And(0 <= s, s < c.v.n), MEM(s)), [MEM(s)]))
    else:
        c.fact('search predicate', forall([s], Imp(And(0 <= s, s < c.v.n), MEM(c.v.si(s))), [c.v.si(s)]))


def _md_row(c, q, s):
    """facts of query q"""
    v = c.v
    mx = sq(v.ds, v.dm, v.qi(q), v.oi.at(q))
    pat = sq(v.ds, v.dm, v.qi(q), v.si(s))
    return And(MEM(v.oi.at(q)), v.od.at(q) == FSQRT(mx)), Imp(And(0 <= s, s < v.n), pat <= mx), pat


def _md_all(c, hi):
    q, s = ivars('q', 's')
    a, b, pat = _md_row(c, q, s)
    pats = [(c.v.oi.at(q), pat)]
    return [('index and distance', forall([q], Imp(And(0 <= q, q < hi), a), [c.v.oi.at(q), c.v.od.at(q)])),
            ('no search point is further', forall([q, s], Imp(And(0 <= q, q < hi), b), pats))]


def _md_post(c):
    def body():
        for n, f in _md_all(c, c.a('len_query_indices')):
            c.fact(n, f, C17)
    return [('done', c.ret, body)]


def _md_inner(L):
    c = L.c; v = c.v; q = L.v('q'); s = z3.Int('s')
    mx = sq(v.ds, v.dm, v.qi(q), v.oi.at(q))
    pat = sq(v.ds, v.dm, v.qi(q), v.si(s))
    return _md_all(c, q) + [
        ('before the first', Imp(L.v('s') == 0, L.v('max_dist') == -1)),
        ('best so far', Imp(L.v('s') > 0, And(MEM(v.oi.at(q)), L.v('max_dist') == mx, mx >= 0))),
        ('none is further so far', forall([s], Imp(And(0 <= s, s < L.v('s')), pat <= mx), [pat]))]


_mdl = {}
for _b in (0, 2, 4, 6):
    _mdl[_b] = LoopSpec(lambda L: _md_all(L.c, L.v('q')))
    _mdl[_b + 1] = LoopSpec(_md_inner)
r = reg('iscc_imp_get_max_dist', _md_pre, _md_post, loops=_mdl, props=('C17', 'C12'))
r.variants = [{'qn': a, 'sn': b} for a in (True, False) for b in (True, False)]


def _init_obj(out, ver, vf, props):
    def pre(c):
        c.v.ds, c.v.dm = ds_view(c, 'data_set')
        n = c.a('len_search_indices')
        c.v.si = c.arr('search_indices', n, null='maybe')
        c.v.out = c.struct(out, mod=True)

    def post(c):
        o = c.v.out

        def ok():
            x = c.fresh_struct(o.loc(''))
            c.fact('fields', And(x(vf) == c.const(ver), x('len_search_indices') == c.a('len_search_indices')), props)
            c.points(x.loc('data_set'), c.v.ds.p, tags=props)
            c.points(x.loc('search_indices'), c.v.si.p, tags=props)
        return [('ok', c.ret, ok), ('no memory', And(Not(c.ret), oom(c)), lambda: c.null(o.loc('')))]
    return pre, post


def _close_obj(arg):
    def pre(c):
        c.v.cell = c.struct(arg, null='maybe', mod=True)
        c.v.o = c.struct(c.v.cell.loc(''), null='maybe', heap=True)

    def post(c):
        nul = Or(c.v.cell.isnull, c.v.o.isnull)
        return [('nothing', And(c.ret, nul), None), ('closed', And(c.ret, Not(nul)), lambda: (c.freed(c.v.o), c.null(c.v.cell.loc(''))))]
    return pre, post


reg('iscc_imp_init_max_dist_object', *_init_obj('out_max_dist_object', 'ISCC_MAXDIST_STRUCT_VERSION', 'max_dist_version', C17), props=('C17', 'C11', 'C12'))
reg('iscc_imp_init_nn_search_object', *_init_obj('out_nn_search_object', 'ISCC_NN_SEARCH_STRUCT_VERSION', 'nn_search_version', C5), props=('C05', 'C11', 'C12'))
reg('iscc_imp_close_max_dist_object', *_close_obj('max_dist_object'), props=('C11', 'C12'))
reg('iscc_imp_close_nn_search_object', *_close_obj('nn_search_object'), props=('C11', 'C12'))


# ---------------------------------------------------------------- insertion into the sorted list
def _add_pre(c):
    if c.producing():
        cnt = z3.Int('cnt')
        c.fact('list length', And(cnt >= 0, cnt < (1 << 32)))
        c.v.cnt = cnt
        c.v.d = c.arr('dist_list_start', cnt + 1, mod=True)
        get, setp, t = c.lookup_loc('dist_list')
        setp(c.v.d.p.moved(cnt))
    else:
        p, q = c.a('dist_list'), c.a('dist_list_start')
        if p.poison or p.fam() or p.obj != q.obj:
            raise Unsupported('the lists of iscc_add_dist_to_list are different objects')
        cnt = c.v.cnt = sub(p.off, q.off)
        c.fact('list end behind its start', cnt >= 0)
        c.v.d = c.arr('dist_list_start', cnt + 1, mod=True)
    c.v.i = c.arr('index_list', cnt + 1, mod=True, at=cnt)


def _add_post(c):
    d, ix, n = c.v.d, c.v.i, c.v.cnt
    k = z3.Int('k')
    x = c.a('add_dist')

    def body():
        ip = c.witness('ip', IS, lambda: sub(c.local('dist_list').off, c.v.d.p.off))
        c.fact('insertion point', And(0 <= ip, ip <= n, Imp(ip > 0, d.o(ip - 1) <= x), Imp(ip < n, x < d.o(ip))), C5)
        for a, v in ((d, x), (ix, c.a('add_index'))):
            c.fact('%s: inserted' % a.name, a.each(I(0), n + 1, lambda k: a.at(k) == Ite(k < ip, a.o(k), Ite(k == ip, v, a.o(k - 1)))), C5)
    return [('done', T, body)]


def _add_inv(L):
    c = L.c; d, ix, n = c.v.d, c.v.i, c.v.cnt
    k = z3.Int('k')
    cur = sub(L.off('dist_list'), d.p.off)
    r = [('position', And(0 <= cur, cur <= n)), ('lists in step', L.off('index_list') == cur), ('shifted entries are larger', Imp(cur < n, c.a('add_dist') < d.o(cur)))]
    for a in (d, ix):
        r.append(('%s: entries shifted' % a.name, forall([k], Imp(And(0 <= k, k <= n), And(Imp(k < cur, a.at(k) == a.o(k)), Imp(k > cur, a.at(k) == a.o(k - 1)))), [a.at(k)])))
    return r


reg('iscc_add_dist_to_list', _add_pre, _add_post, loops={0: LoopSpec(_add_inv)}, props=('C05', 'C12'))

# ---------------------------------------------------------------- nearest neighbour search
AAI = z3.ArraySort(IS, AI)


def _nn_pre(c):
    v = c.v
    v.o, v.ds, v.dm, v.n, v.si, sv = search_object(c, 'nn_search_object', 'iscc_NNSearchObject', None)
    nq = c.a('len_query_indices'); N = v.ds('num_data_points'); k = c.a('k')
    al = c.variant.get('on') == 'alias'; q = z3.Int('q')
    c.fact('queries: length', And(nq >= 1, nq < (1 << 62), nq <= N if c.variant.get('qn') else T))
    v.q = c.arr('query_indices', nq, null=T if c.variant.get('qn') else F, mod=al)
    if not c.variant.get('qn'):
        c.fact('queries are data points', forall([q], Imp(And(0 <= q, q < nq), And(v.q.at(q) >= 0, v.q.at(q) < N)), [v.q.at(q)]))
    v.qi = (lambda i: i) if c.variant.get('qn') else (lambda i: v.q.o(i))
    c.fact('k in range', And(k >= 1, k <= v.n))
    v.num = c.struct('out_num_ok_queries', mod=True)
    if al:
        v.oq = v.q
        c.points('out_query_indices', v.q.p)
    else:
        v.oq = c.arr('out_query_indices', nq, null=T if c.variant.get('on') == 'null' else F, mod=True)
    v.out = c.arr('out_nn_indices', mul(nq, k), mod=True)


class NNs:
    """the specification of one search, over ghost arrays: Pq[q] the positions listed for query q in order, Qq[q] their inverse (-1: not listed),
    Fq[q] how many were listed, RK[q] the number of reported queries before q, QR[r] the r-th reported query"""

    def __init__(s, c, P, Q, Fq, RK, QR):
        s.c = c; s.P, s.Q, s.F, s.RK, s.QR = P, Q, Fq, RK, QR
        s.k = c.a('k'); s.rad = c.a('radius_search'); s.rsq = FMUL(c.a('radius'), c.a('radius'))

    def D(s, q, x):
        v = s.c.v
        return SQF(v.dm.raw(), v.ds('num_dimensions'), v.qi(q), v.si(x))

    def facts(s, hi):
        c = s.c; v = c.v; n = v.n; k = s.k
        q, i, j, x, r_ = ivars('q', 'i', 'j', 'x', 'r')
        P = lambda q, j: s.P[q][j]
        Q = lambda q, x: s.Q[q][x]
        inq = And(0 <= q, q < hi)
        r = [('listed points', forall([q, j], Imp(And(inq, 0 <= j, j < s.F[q]), And(0 <= P(q, j), P(q, j) < n, Q(q, P(q, j)) == j, Imp(s.rad, s.D(q, P(q, j)) <= s.rsq))), [P(q, j)])),
             ('ordered by distance', forall([q, i, j], Imp(And(inq, 0 <= i, i <= j, j < s.F[q]), s.D(q, P(q, i)) <= s.D(q, P(q, j))), [(P(q, i), P(q, j))])),
             ('points left out are not closer', forall([q, x], Imp(And(inq, 0 <= x, x < n),
                                                       Ite(Q(q, x) == -1, Or(And(s.rad, s.D(q, x) > s.rsq), And(s.F[q] == k, s.D(q, x) >= s.D(q, P(q, k - 1)))),
                                                           And(0 <= Q(q, x), Q(q, x) < s.F[q], P(q, Q(q, x)) == x))), [Q(q, x)])),
             ('numbers listed', forall([q], Imp(inq, And(0 <= s.F[q], s.F[q] <= k, Imp(Not(s.rad), s.F[q] == k))), [s.F[q]])),
             ('rank', And(s.RK[0] == 0, forall([q], Imp(inq, s.RK[q + 1] == s.RK[q] + Ite(s.F[q] == k, I(1), I(0))), [s.F[q]]), forall([q], Imp(And(0 <= q, q <= hi), And(0 <= s.RK[q], s.RK[q] <= q, s.RK[q] <= s.RK[hi])), [s.RK[q]]),
                          forall([q], Imp(And(inq, s.F[q] == k), s.RK[q] < s.RK[hi]), [s.F[q]]))),
             ('rank ordered', And(forall([i, j], Imp(And(0 <= i, i <= j, j <= hi), And(s.RK[i] <= s.RK[j], Imp(And(i < j, s.F[i] == k), s.RK[i] < s.RK[j]))), [(s.RK[i], s.RK[j])]),
                                  forall([q], Imp(And(0 <= q, q <= hi, Not(s.rad)), s.RK[q] == q), [s.RK[q]]))),
             ('reported queries', forall([r_], Imp(And(0 <= r_, r_ < s.RK[hi]), And(0 <= s.QR[r_], s.QR[r_] < hi, s.F[s.QR[r_]] == k, s.RK[s.QR[r_]] == r_)), [s.QR[r_]])),
             ('reported neighbours', forall([q, j], Imp(And(inq, s.F[q] == k, 0 <= j, j < k), v.out.at(mul(s.RK[q], k) + j) == v.si(P(q, j))), [P(q, j)]))]
        if not is_true(v.oq.isnull):
            r.append(('reported queries in input order', forall([q], Imp(And(inq, s.F[q] == k), v.oq.at(s.RK[q]) == v.qi(q)), [s.F[q]])))
        return r


def _nn_post(c):
    def ok():
        P, Q = c.witness('Pq', AAI), c.witness('Qq', AAI)
        Fq, RK, QR = c.witness('Fq', AI), c.witness('RK', AI), c.witness('QR', AI)
        nq = c.a('len_query_indices')
        for n, f in NNs(c, P, Q, Fq, RK, QR).facts(nq):
            c.fact(n, f, C5)
        c.fact('number of reported queries', c.v.num('') == RK[nq], C5)
    return [('ok', c.ret, ok), ('no memory', And(Not(c.ret), oom(c)), None)]


def _nn_g0(L):
    c = L.c
    for n, srt in (('Pq', AAI), ('Qq', AAI), ('Fq', AI), ('RK', AI), ('QR', AI)):
        L.setg(n, z3.Const('%s!%d' % (n, uid()), srt))
    L.setg('RK', z3.Store(L.g('RK'), 0, I(0)))
    L.assume_def(MUL(I(0), c.a('k')) == 0, 'product with zero')


def rowlemma(L, k):
    """forall a < b: a*k + k <= b*k"""
    a, b = ivars('a', 'b')
    nl(L, 'row', L.v('num_ok_queries'), L.c.a('len_query_indices'), k)
    nl(L, 'succ', L.v('num_ok_queries'), k)
    n = L.v('num_ok_queries')
    # instance family of lemma "row" with the second factor fixed
    L.st.assume(forall([a], Imp(And(0 <= a, a < n), MUL(a, k) + k <= MUL(n, k)), [MUL(a, k)]), 'arithmetic lemma row')


def _nn_outer(L):
    c = L.c; v = c.v
    q = L.v('q'); k = c.a('k')
    S = NNs(c, L.g('Pq'), L.g('Qq'), L.g('Fq'), L.g('RK'), L.g('QR'))
    x = z3.Int('x')
    r = S.facts(q) + [('reported so far', L.v('num_ok_queries') == S.RK[q]), ('reported so far in range', And(0 <= L.v('num_ok_queries'), L.v('num_ok_queries') <= q)), ('write position', L.off('index_write') == MUL(L.v('num_ok_queries'), k))]
    if c.variant.get('on') == 'alias':
        r.append(('queries to come are kept', forall([x], Imp(And(q <= x, x < v.q.n), v.q.at(x) == v.q.o(x)), [v.q.at(x)])))
    return r


def _nn_outer_step(L):
    """record the list of this query"""
    q = L.p('q')
    f = L.g('found')
    L.setg('Pq', z3.Store(L.g('Pq'), q, L.g('P'))); L.setg('Qq', z3.Store(L.g('Qq'), q, L.g('Q')))
    L.setg('Fq', z3.Store(L.g('Fq'), q, f))
    RKq = L.g('RK')[q]; QR = L.g('QR')
    L.setg('QR', z3.Store(QR, RKq, Ite(f == L.c.a('k'), q, QR[RKq])))
    L.setg('RK', z3.Store(L.g('RK'), q + 1, L.g('RK')[q] + Ite(f == L.c.a('k'), I(1), I(0))))


def _nn_list(L, found, s, base):
    c = L.c; v = c.v; k = c.a('k')
    P, Q = L.g('P'), L.g('Q'); q = L.v('q')
    S = NNs(c, L.g('Pq'), L.g('Qq'), L.g('Fq'), L.g('RK'), L.g('QR'))
    D = lambda x: S.D(q, x)
    sc = L.arr('sort_scratch')
    i, j, x = ivars('i', 'j', 'x')
    return [('found in range', And(0 <= found, found <= k, found <= s, s <= v.n)),
            ('listed points', forall([j], Imp(And(0 <= j, j < found), And(0 <= P[j], P[j] < s, sc.at(j) == D(P[j]), Q[P[j]] == j, Imp(S.rad, D(P[j]) <= S.rsq))), [P[j]])),
            ('scratch', forall([j], Imp(And(0 <= j, j < found), sc.at(j) == D(P[j])), [sc.at(j)])),
            ('written indices', forall([j], Imp(And(0 <= j, j < found), v.out.at(base + j) == v.si(P[j])), [P[j]])),
            ('sorted', forall([i, j], Imp(And(0 <= i, i <= j, j < found), D(P[i]) <= D(P[j])), [(P[i], P[j])])),
            ('left out', forall([x], Imp(And(0 <= x, x < s), Ite(Q[x] == -1, Or(And(S.rad, D(x) > S.rsq), And(found == k, D(x) >= D(P[k - 1]))),
                                                                 And(0 <= Q[x], Q[x] < found, P[Q[x]] == x))), [Q[x]])),
            ('rows of earlier queries kept', forall([x], Imp(And(0 <= x, x < base), v.out.at(x) == L.arr('out_nn_indices').ent(x)), [v.out.at(x)]))]


def _base(L):
    return L.off('index_write')


def _nn_fix_av(v):
    pass


def _nn_in_g0(first):
    def g0(L):
        rowlemma(L, L.c.a('k'))
        if first:
            L.setg('P', z3.Const('P!%d' % uid(), AI)); L.setg('Q', z3.Const('Q!%d' % uid(), AI))
    return g0


def _nn_in_step(full):
    def step(L):
        key = 'iscc_add_dist_to_list.ip'
        ip = L.st.ghosts.get(key); P, Q = L.g('P'), L.g('Q'); s = L.p('s')
        k = L.c.a('k')
        if ip is None or ip is L.prev.ghosts.get(key):
            L.setg('Q', z3.Store(Q, s, I(-1)))
            return
        P2, Q2 = z3.Const('P!%d' % uid(), AI), z3.Const('Q!%d' % uid(), AI)
        j, x = ivars('j', 'x')
        L.assume_def(forall([j], P2[j] == Ite(j < ip, P[j], Ite(j == ip, s, P[j - 1])), [P2[j]]), 'ghost insertion')
        last = k - 1
        moved = Ite(Q[x] < 0, I(-1), Ite(Q[x] < ip, Q[x], (Ite(Q[x] == last, I(-1), Q[x] + 1) if full else Q[x] + 1)))
        L.assume_def(forall([x], Q2[x] == Ite(x == s, ip, moved), [Q2[x]]), 'ghost insertion')
        # patterns: old list terms near the new ones
        L.assume_def(forall([j], And(P2[j] == P2[j], Or(j <= ip, P[j - 1] == P2[j])), [P2[j]]), 'ghost insertion')
        L.assume_def(forall([j], And(Imp(j < ip, P2[j] == P[j]), Imp(j >= ip, P2[j + 1] == P[j])), [P[j]]), 'ghost insertion')
        L.setg('P', P2); L.setg('Q', Q2)
    return step


def _nnA(L):
    return _nn_list(L, L.v('found'), L.v('s'), _base(L))


def _nnB(L):
    return _nn_list(L, L.v('s'), L.v('s'), _base(L)) + [('no radius', Not(L.c.a('radius_search')))]


def _nnC(L):
    return _nn_list(L, L.v('found'), L.v('s'), _base(L)) + [('list full or search done', Or(L.v('found') == L.c.a('k'), L.v('s') >= L.c.v.n)), ('without radius the list is full', Or(L.c.a('radius_search'), L.v('found') == L.c.a('k')))]


_nnl = {}
for _b in (0, 4):
    _nnl[_b] = LoopSpec(_nn_outer, ghosts=('Pq', 'Qq', 'Fq', 'RK', 'QR'), ghost0=_nn_g0, step=_nn_outer_step)
    _nnl[_b + 1] = LoopSpec(_nnA, ghosts=('P', 'Q'), ghost0=_nn_in_g0(True), step=_nn_in_step(False))
    _nnl[_b + 2] = LoopSpec(_nnB, ghosts=('P', 'Q'), ghost0=_nn_in_g0(True), step=_nn_in_step(False))
    _nnl[_b + 3] = LoopSpec(_nnC, ghosts=('P', 'Q'), ghost0=_nn_in_g0(False), step=_nn_in_step(True), exit=lambda L: L.setg('found', L.v('found')))
r = reg('iscc_imp_nearest_neighbor_search', _nn_pre, _nn_post, loops=_nnl, props=('C05', 'C11', 'C12'))
r.variants = [{'qn': a, 'sn': b, 'on': o} for a in (True, False) for b in (True, False) for o in ('null', 'own', 'alias') if not (a and o == 'alias')]


# ---------------------------------------------------------------- the wrappers of dist_search.h forward to the installed functions
def _fwd(fn):
    def pre(c):
        t = c.glob('iscc_dist_functions')
        for q, _ in leafs(t.t):
            c.fact('table entry %s is set (invariant of the table: no contract stores null)' % q, t(q) != 0)
        for pn, pt in c.eng.params('iscc_' + fn):
            if pt.k == 'ptr':
                if pt.to.k == 'void' or (pt.to.k == 'struct' and not pt.to.fields):
                    c.opaque(pn, null='maybe')
                else:
                    c.arr(pn, 1, null='maybe')

    def post(c):
        def body():
            evs = [e for e in c.st.events if e[0] is not None and not isinstance(e[0], str)]
            c.fact('exactly one installed function is called', B(len(evs) == 1), ('C15',))
            if len(evs) != 1:
                return
            f, args = evs[0]
            c.fact('it is the installed %s' % fn, f == c.glob('iscc_dist_functions').o(fn), ('C15',))
            ok = T
            for (pn, pt), a in zip(c.eng.params('iscc_' + fn), args):
                x = c.args[pn].v
                if isinstance(x, Ptr):
                    same = isinstance(a.v, Ptr) and a.v.obj == x.obj and num(sub(a.v.off, x.off)) == 0
                    ok = And(ok, B(same))
                else:
                    ok = And(ok, eq(x, a.v))
            c.fact('arguments are passed on unchanged', ok, ('C15',))
            c.fact('its result is returned', eq(c.ret, c.st.ghosts['extret']), ('C15',))
        return [('forwarded', T, body)]
    return pre, post


for _f in ['check_data_set', 'num_data_points', 'get_dist_matrix', 'get_dist_rows', 'init_max_dist_object', 'get_max_dist', 'close_max_dist_object',
           'init_nn_search_object', 'nearest_neighbor_search', 'close_nn_search_object']:
    _p, _q = _fwd(_f)
    reg('iscc_%s (forwarding)' % _f, _p, _q, fn='iscc_' + _f, props=('C15',))
