"""The data-set interface at its call sites.

The library reaches the data only through the ten functions of dist_search.h.  That each forwards to the installed function is proved
('(forwarding)' contracts); that the built-in functions meet these contracts is proved on iscc_imp_* (dist.py); here the same contracts are
stated over an abstract data set: DIST(ds, i, j) is what the search orders by, RAD(r) the threshold a radius stands for
(built-in: squared distance and r*r)."""
from .base import *
from .dist import NNs
from vc import *
import vc

DIST = z3.Function('dist', IS, IS, IS, RS)
EDIST = z3.Function('edist', IS, IS, IS, RS)      # the distance reported by rows, matrices and maximum searches
RAD = z3.Function('radius_threshold', RS, RS)
NPTS = z3.Function('data_points', IS, IS)
DSOK = z3.Function('data_set_ok', IS, BS)
AI = z3.ArraySort(IS, IS)
AAI = z3.ArraySort(IS, AI)
WHY = 'the installed function behaves as documented in scclust_spi.h; for the built-in functions this is proved (iscc_imp_* and the forwarding contracts)'


def ds_id(p):
    return I(p.obj) if isinstance(p.obj, int) else p.obj


def ds_arg(c, loc='data_set', ok=True):
    p, nc = c.opaque(loc)
    d = ds_id(p)
    if ok:
        c.fact('valid data set', DSOK(d))
    N = NPTS(d)
    c.fact('number of data points in range', And(N >= 1, N <= c.const('ISCC_POINTINDEX_MAX')))
    return d, N


def _cd_pre(c):
    c.v.p, c.v.nc = c.opaque('data_set', null='maybe')


def _cd_post(c):
    d = ds_id(c.v.p) if not (isinstance(c.v.p.obj, int) and c.v.p.obj == 0) else I(0)
    N = NPTS(d)
    return [('valid', c.ret, lambda: c.fact('data set', And(Not(c.v.nc), DSOK(d), N >= 1, N <= c.const('ISCC_POINTINDEX_MAX')))), ('invalid', Not(c.ret), lambda: c.fact('no data set', Or(c.v.nc, Not(DSOK(d)))))]


reg('iscc_check_data_set', _cd_pre, _cd_post, trusted=WHY)


def _np_pre(c):
    c.v.d, c.v.N = ds_arg(c)


reg('iscc_num_data_points', _np_pre, lambda c: [('count', c.ret == c.v.N, None)], trusted=WHY)


# ---------------------------------------------------------------- which pointer arguments are null
def nullness(c, loc, key):
    """True/False: decided by the variant in the verification of a body, by the path at a call site"""
    if c.mode == 'verify':
        return bool(c.variant[key])
    get, setp, t = c.lookup_loc(loc)
    isn = c.eng.isnull(get())
    if is_true(isn) or is_false(isn):
        return is_true(isn)
    if c.eng.quick(c.st, isn):
        return True
    if c.eng.quick(c.st, Not(isn)):
        return False
    if c.eng.collect:
        return False      # only what the call may modify is of interest here
    raise Unsupported('whether %s is null is not decided at this call' % c.lname(loc))


def index_list(c, loc, n, N, key, sorted_=False, mod=False):
    """null (all points, n of them) or n data points"""
    nul = nullness(c, loc, key); i, j = ivars('i', 'j')
    a = c.arr(loc, n, null=T if nul else F, mod=mod)
    c.fact('%s: length' % c.lname(loc), And(n >= 1, n < (1 << 62), n <= N if nul else T))
    if not nul:
        c.fact('%s: data points' % c.lname(loc), forall([i], Imp(And(0 <= i, i < n), And(a.at(i) >= 0, a.at(i) < N)), [a.at(i)]))
        if sorted_:
            c.fact('%s: sorted' % c.lname(loc), forall([i, j], Imp(And(0 <= i, i < j, j < n), a.at(i) < a.at(j)), [(a.at(i), a.at(j))]))
    return a, nul


# ---------------------------------------------------------------- search objects
class H:
    """what a search object was created from"""
    pass


def handle_new(c, p, ds, N, n, a, nul):
    h = H(); h.ds, h.N, h.n, h.nul = ds, N, n, nul
    h.a = a
    if not nul:
        h.snap = a.raw(); h.base = a.p.off; h.obj = a.p.obj
        h.si = lambda i: z3.Select(h.snap, add(h.base, i))
    else:
        h.si = lambda i: i
    if not hasattr(c.eng, 'handles'):
        c.eng.handles = {}
    c.eng.handles[p.obj] = h
    return h


def handle_arg(c, loc, key='sn'):
    """a live search object; its search list is still what it was when the object was made"""
    o = c.struct(loc, heap=True)
    i = z3.Int('i')
    if c.producing():
        nul = bool(c.variant[key])
        d = z3.Int('ds!%d' % uid()); n = z3.Int('nsearch!%d' % uid()); N = NPTS(d)
        c.st.assume(And(DSOK(d), N >= 1, N <= c.const('ISCC_POINTINDEX_MAX'), n >= 1, n <= N))
        a = None
        if not nul:
            t = c.eng.prog.structs['iscc_NNSearchObject']
            a = c.arr(o.loc('search_indices'), n)
            c.st.assume(forall([i], Imp(And(0 <= i, i < n), And(a.at(i) >= 0, a.at(i) < N)), [a.at(i)]))
        return o, handle_new(c, o.p, d, N, n, a, nul)
    h = getattr(c.eng, 'handles', {}).get(o.p.obj)
    if h is None:
        raise Unsupported('search object of unknown origin')
    if not h.nul:
        ob = c.eng.os(c.st, h.obj)
        c.fact('the search list is still allocated', B(ob.alive), ('C12',), kind='mem')
        cur = ob.c['']
        if not cur.eq(h.snap):
            c.fact('the search list is unchanged', forall([i], Imp(And(0 <= i, i < h.n), z3.Select(cur, add(h.base, i)) == h.si(i)), [z3.Select(cur, add(h.base, i))]))
    return o, h


def _in_pre(c):
    c.v.ds, c.v.N = ds_arg(c)
    c.v.a, c.v.nul = index_list(c, 'search_indices', c.a('len_search_indices'), c.v.N, 'sn')
    c.v.out = c.struct('out_nn_search_object', mod=True)


def _in_post(c):
    def ok():
        x = c.fresh_struct(c.v.out.loc(''))
        handle_new(c, x.p, c.v.ds, c.v.N, c.a('len_search_indices'), c.v.a, c.v.nul)
    return [('ok', c.ret, ok), ('no memory or failure', Not(c.ret), lambda: c.null(c.v.out.loc('')))]


reg('iscc_init_nn_search_object', _in_pre, _in_post, trusted=WHY)


def _cl_pre(c):
    c.v.cell = c.struct('nn_search_object', mod=True)
    c.v.o = c.struct(c.v.cell.loc(''), heap=True)


def _cl_post(c):
    def closed():
        c.freed(c.v.o); c.null(c.v.cell.loc(''))
    return [('closed', T, closed)]


reg('iscc_close_nn_search_object', _cl_pre, _cl_post, trusted=WHY)


class NNa(NNs):
    """the search specification over the abstract data set"""

    def __init__(s, c, h, W):
        NNs.__init__(s, c, *W)
        s.h = h; s.rsq = RAD(c.a('radius'))

    def D(s, q, x):
        return DIST(s.h.ds, s.c.v.qi(q), s.h.si(x))


def nn_witness(c):
    return [c.witness(n, s) for n, s in (('Pq', AAI), ('Qq', AAI), ('Fq', AI), ('RK', AI), ('QR', AI))]


def _nn_pre(c):
    v = c.v
    v.o, v.hd = handle_arg(c, 'nn_search_object')
    v.n, v.si = v.hd.n, v.hd.si
    nq, k = c.a('len_query_indices'), c.a('k')
    qp, op = c.a('query_indices'), c.a('out_query_indices')
    al = (not op.poison) and (not qp.poison) and isinstance(op.obj, int) and op.obj != 0 and op.obj == qp.obj
    v.q, qn = index_list(c, 'query_indices', nq, v.hd.N, 'qn', mod=al)
    v.qi = (lambda i: i) if qn else (lambda i: v.q.o(i))
    c.fact('k in range', And(k >= 1, k <= v.n))
    c.fact('radius positive', Imp(c.a('radius_search'), c.a('radius') > 0))
    v.num = c.struct('out_num_ok_queries', mod=True)
    if al:
        v.oq = v.q
        c.points('out_query_indices', v.q.p)
    else:
        on = nullness(c, 'out_query_indices', 'on')
        v.oq = c.arr('out_query_indices', nq, null=T if on else F, mod=True)
    v.out = c.arr('out_nn_indices', mul(nq, k), mod=True)


def _nn_post(c):
    def ok():
        W = nn_witness(c); nq = c.a('len_query_indices')
        for n, f in NNa(c, c.v.hd, W).facts(nq):
            c.fact(n, f)
        c.fact('number of reported queries', c.v.num('') == W[3][nq])
    return [('ok', c.ret, ok), ('no memory or failure', Not(c.ret), None)]


reg('iscc_nearest_neighbor_search', _nn_pre, _nn_post, trusted=WHY)


def _dr_pre(c):
    v = c.v
    v.ds, v.N = ds_arg(c)
    n, m = c.a('len_query_indices'), c.a('len_column_indices')
    if num(n) == 1:
        v.q = c.struct('query_indices'); qn = False
        c.fact('query: data point', And(v.q('') >= 0, v.q('') < v.N))
        v.q.at = lambda k: v.q('')
    else:
        v.q, qn = index_list(c, 'query_indices', n, v.N, 'qn')
    v.c, cn = index_list(c, 'column_indices', m, v.N, 'cn')
    v.qi = (lambda i: i) if qn else (lambda i: v.q.at(i))
    v.ci = (lambda i: i) if cn else (lambda i: v.c.at(i))
    v.out = c.arr('output_dists', mul(n, m), mod=True)


def _dr_post(c):
    def ok():
        v = c.v; n, m = c.a('len_query_indices'), c.a('len_column_indices'); i, j = ivars('i', 'j')
        if num(n) == 1:
            c.fact('distances of the row', forall([j], Imp(And(0 <= j, j < m), v.out.at(j) == EDIST(v.ds, v.qi(I(0)), v.ci(j))), [v.out.at(j)]))
        elif num(n) == 2:
            c.fact('distances of the rows', And(*[forall([j], Imp(And(0 <= j, j < m), v.out.at(mul(I(k), m) + j) == EDIST(v.ds, v.qi(I(k)), v.ci(j))), [v.out.at(mul(I(k), m) + j)]) for k in (0, 1)]))
        else:
            c.fact('distances of the rows', forall([i, j], Imp(And(0 <= i, i < n, 0 <= j, j < m), v.out.at(mul(i, m) + j) == EDIST(v.ds, v.qi(i), v.ci(j))), [v.out.at(mul(i, m) + j)]))
    return [('ok', c.ret, ok), ('no memory or failure', Not(c.ret), None)]


reg('iscc_get_dist_rows', _dr_pre, _dr_post, trusted=WHY)


# ---------------------------------------------------------------- maximum searches
def _xi_pre(c):
    c.v.ds, c.v.N = ds_arg(c)
    c.v.a, c.v.nul = index_list(c, 'search_indices', c.a('len_search_indices'), c.v.N, 'sn')
    c.v.out = c.struct('out_max_dist_object', mod=True)


reg('iscc_init_max_dist_object', _xi_pre, _in_post, trusted=WHY)


def _xc_pre(c):
    c.v.cell = c.struct('max_dist_object', mod=True)
    c.v.o = c.struct(c.v.cell.loc(''), heap=True)


def _xc_post(c):
    def closed():
        c.freed(c.v.o); c.null(c.v.cell.loc(''))
    return [('closed', c.ret, closed), ('closed, failure reported', Not(c.ret), closed)]


reg('iscc_close_max_dist_object', _xc_pre, _xc_post, trusted=WHY)


def _xg_pre(c):
    v = c.v; v.o, v.hd = handle_arg(c, 'max_dist_object'); nq = c.a('len_query_indices')
    v.q, qn = index_list(c, 'query_indices', nq, v.hd.N, 'qn')
    v.qi = (lambda i: i) if qn else (lambda i: v.q.at(i))
    v.oi = c.arr('out_max_indices', nq, mod=True); v.od = c.arr('out_max_dists', nq, mod=True)


def _xg_post(c):
    def ok():
        v = c.v; h = v.hd; nq = c.a('len_query_indices'); i, s = ivars('i', 's'); MX = c.witness('MX', AI)
        c.fact('a search point, at its distance', forall([i], Imp(And(0 <= i, i < nq), And(0 <= MX[i], MX[i] < h.n, v.oi.at(i) == h.si(MX[i]), v.od.at(i) == EDIST(h.ds, v.qi(i), v.oi.at(i)), v.od.at(i) >= 0)), [v.oi.at(i), v.od.at(i)]))
        c.fact('no search point is further', forall([i, s], Imp(And(0 <= i, i < nq, 0 <= s, s < h.n), EDIST(h.ds, v.qi(i), h.si(s)) <= v.od.at(i)), [EDIST(h.ds, v.qi(i), h.si(s))]))
    return [('ok', c.ret, ok), ('no memory or failure', Not(c.ret), None)]


reg('iscc_get_max_dist', _xg_pre, _xg_post, trusted=WHY)
