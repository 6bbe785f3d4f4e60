"""hierarchical_clustering.c: the steps the splitting of a cluster is made of (C03, C12).
Their caller, iscc_hi_break_cluster_into_two, is trusted: that it calls them within these preconditions is not proved."""
from .base import *
from .hier import into, len_into, pfield_into, region, C3, AI, LS
from .findseeds import const
from .spi import *
from .hier import work_area, work_room
from .cluster import given
P3 = ('C03', 'C12', 'C16')


def fixed(L, av):
    return L.c.v


# ---------------------------------------------------------------- markers
def marks(c, mod=True):
    v = c.v; v.N = len_into(c, 'vertex_markers')
    v.V = c.arr('vertex_markers', v.N, mod=mod)


def _gm_pre(c):
    v = c.v; z = z3.Int('z'); marks(c)
    v.cl = c.struct('cl', mod=('marker',)); v.n = v.cl('size')
    v.M = len_into(c, v.cl.loc('members')); v.S, v.b = into(c, v.cl.loc('members'), v.M)
    c.fact('members', And(v.n >= 1, v.b + v.n <= v.M, v.N < (1 << 60)))
    v.IDX = given(c, 'IDX', AI)
    for nm, f in region(v.S, v.IDX, v.b, v.b + v.n, v.N):
        c.fact(nm, f)
    c.fact('markers of the members', forall([z], Imp(And(v.b <= z, z < v.b + v.n), v.V.at(v.S.at(z)) <= v.cl('marker')), [v.S.at(z)]))


def _gm_post(c):
    v = c.v; z, x = ivars('z', 'x'); mem = And(v.b <= v.IDX[x], v.IDX[x] < v.b + v.n)

    def ok():
        c.fact('the new marker is returned', And(c.ret == v.cl('marker'), c.ret >= 1), C3)
        c.fact('no member has the new marker', forall([z], Imp(And(v.b <= z, z < v.b + v.n), v.V.at(v.S.at(z)) < c.ret), [v.S.at(z)]), C3)
        c.fact('markers of other points', forall([x], Imp(Not(mem), v.V.at(x) == v.V.o(x)), [v.V.at(x)]), C3)
    return [('ok', T, ok)]


def _gm0(L):
    v = L.c.v; z, x = ivars('z', 'x'); i = L.v('i')
    return [('position', And(0 <= i, i <= v.n)), ('marker', v.cl._rd(L.st, 'marker') == 0),
            ('reset so far', forall([x], v.V.at(x) == Ite(And(v.b <= v.IDX[x], v.IDX[x] < v.b + i), I(0), v.V.o(x)), [v.V.at(x)]))]


reg('iscc_hi_get_next_marker', _gm_pre, _gm_post, loops={0: LS(_gm0)}, props=P3)


# ---------------------------------------------------------------- moves
def cluster_part(c, m, front):
    """the cluster grows at its end (front: at its start) into the cells of S"""
    v = c.v; v.cl = c.struct('cl', mod=('size', 'members') if front else ('size',)); v.s = v.cl('size')
    v.M = len_into(c, v.cl.loc('members')); v.S, v.b = into(c, v.cl.loc('members'), v.M, mod=True)
    v.m = c.a('curr_marker')
    c.fact('marker', v.cl('marker') == v.m)
    c.fact('room', And(v.s >= 0, v.b >= m if front else v.b + v.s + m <= v.M, v.s + m < (1 << 60), v.M < (1 << 60)))


def _mp(front):
    def pre(c):
        v = c.v; marks(c); cluster_part(c, I(1), front); v.id = c.a('id')
        c.fact('point not moved yet', And(0 <= v.id, v.id < v.N, v.V.at(v.id) != v.m))

    def post(c):
        v = c.v; z, x = ivars('z', 'x'); at = v.b - 1 if front else v.b + v.s

        def ok():
            c.fact('size', v.cl('size') == v.s + 1, C3)
            if front:
                c.points(v.cl.loc('members'), Ptr(v.S.p.obj, v.b - 1), tags=C3)
            c.fact('the point is in its cell', forall([z], v.S.at(z) == Ite(z == at, v.id, v.S.o(z)), [v.S.at(z)]), C3)
            c.fact('the point is marked', forall([x], v.V.at(x) == Ite(x == v.id, v.m, v.V.o(x)), [v.V.at(x)]), C3)
        return [('ok', T, ok)]
    return pre, post


for i, front in ((1, False), (2, True)):
    pre, post = _mp(front)
    reg('iscc_hi_move_point_to_cluster%d' % i, pre, post, props=P3)


def _ma(front):
    def pre(c):
        v = c.v; j = z3.Int('j'); marks(c); v.k = c.a('len_ids'); cluster_part(c, v.k, front)
        v.ids = c.arr('ids', v.k); v.JX = given(c, 'JX', AI)
        c.fact('points not moved yet', And(v.k >= 1, forall([j], Imp(And(0 <= j, j < v.k), And(0 <= v.ids.at(j), v.ids.at(j) < v.N, v.V.at(v.ids.at(j)) != v.m, v.JX[v.ids.at(j)] == j)), [v.ids.at(j)])))

    def cells(v, z, j):
        """contents of cell z after the first j points"""
        if front:
            return Ite(And(v.b - j <= z, z < v.b), v.ids.at(v.b - 1 - z), v.S.o(z))
        return Ite(And(v.b + v.s <= z, z < v.b + v.s + j), v.ids.at(z - v.b - v.s), v.S.o(z))

    def marked(v, x, j):
        return Ite(And(0 <= v.JX[x], v.JX[x] < j, v.ids.at(v.JX[x]) == x), v.m, v.V.o(x))

    def post(c):
        v = c.v; z, x = ivars('z', 'x')

        def ok():
            c.fact('size', v.cl('size') == v.s + v.k, C3)
            if front:
                c.points(v.cl.loc('members'), Ptr(v.S.p.obj, v.b - v.k), tags=C3)
            c.fact('the points are in their cells', forall([z], v.S.at(z) == cells(v, z, v.k), [v.S.at(z)]), C3)
            c.fact('the points are marked', forall([x], v.V.at(x) == marked(v, x, v.k), [v.V.at(x)]), C3)
        return [('ok', T, ok)]

    def inv(L):
        v = L.c.v; z, x = ivars('z', 'x'); j = L.off('ids')
        S = lambda z: v.S.rd(L.st, z); V = lambda x: v.V.rd(L.st, x)
        r = [('position', And(0 <= j, j <= v.k)), ('moved so far', forall([z], S(z) == cells(v, z, j), [S(z)])), ('marked so far', forall([x], V(x) == marked(v, x, j), [V(x)]))]
        if front:
            q = v.cl._rd(L.st, 'members')
            r.append(('next cell', And(q.off == v.b - j, Not(q.null))))
        else:
            r.append(('next cell', L.off('cl_mem') == v.b + v.s + j))
        return r
    return pre, post, inv


for i, front in ((1, False), (2, True)):
    pre, post, inv = _ma(front)
    reg('iscc_hi_move_array_to_cluster%d' % i, pre, post, loops={0: LS(inv)}, props=P3)


# ---------------------------------------------------------------- sorted lists
def edges(c, loc):
    v = c.v; v.n = len_into(c, loc); get = c.lookup_loc(loc)[0]
    if c.producing():
        v.e = z3.Int('%s.at' % loc); c.st.assume(And(0 <= v.e, v.e < v.n))
    else:
        v.e = get().off
    v.E = c.arr(loc, v.n, mod=('next_dist',), at=v.e)
    pfield_into(c, v.E, 'next_dist', v.E, v.n - 1)
    return v.E


def links(nx, h, V, m, n):
    k, j = ivars('k', 'j')
    return [('links go forward', forall([k], Imp(And(0 <= k, k < n - 1), And(k < nx(k), nx(k) < n)), [nx(k)])),
            ('links skip moved points only', forall([k, j], Imp(And(0 <= k, k < n - 1, k < j, j < nx(k)), V(h(j)) == m), [(nx(k), h(j))]))]


def list_pre(c):
    v = c.v; k = z3.Int('k'); marks(c, False); E = edges(c, 'prev_dist'); v.m = c.a('curr_marker')
    c.fact('points of the list', forall([k], Imp(And(1 <= k, k < v.n), And(0 <= E.at(k, 'head'), E.at(k, 'head') < v.N)), [E.at(k, 'head')]))
    for nm, f in links(lambda k: E.at(k, 'next_dist').off, lambda k: E.at(k, 'head'), v.V.at, v.m, v.n):
        c.fact(nm, f)


def _nd_pre(c):
    v = c.v; list_pre(c); v.t = given(c, 'LAST', IS)
    c.fact('a point left in the list', And(v.e < v.t, v.t < v.n, v.V.at(v.E.at(v.t, 'head')) != v.m))


def _nd_post(c):
    v = c.v; E = v.E; j, k = ivars('j', 'k'); h = lambda k: E.at(k, 'head'); nx = lambda k: E.at(k, 'next_dist').off

    def ok():
        r = c.witness('r', IS, lambda: c.ret.off)
        c.points('return', Ptr(E.p.obj, r), tags=C3)
        c.fact('the next point', And(v.e < r, r <= v.t, v.V.at(h(r)) != v.m), C3)
        c.fact('only moved points are skipped', forall([j], Imp(And(v.e < j, j < r), v.V.at(h(j)) == v.m), [h(j)]), C3)
        c.fact('links', And(nx(v.e) == r, forall([k], Imp(And(0 <= k, k < v.n - 1), And(Not(E.at(k, 'next_dist').null), Imp(k != v.e, nx(k) == E.o(k, 'next_dist').off))), [nx(k), E.at(k, 'next_dist').null])), C3)
    return [('ok', T, ok)]


def _nd0(L):
    v = L.c.v; E = v.E; j, k = ivars('j', 'k'); q = lambda k: E.rd(L.st, k, 'next_dist'); h = lambda k: E.rd(L.st, k, 'head')
    return [('next', And(Not(q(v.e).null), v.e < q(v.e).off, q(v.e).off <= v.t)), ('skipped so far', forall([j], Imp(And(v.e < j, j < q(v.e).off), v.V.rd(L.st, h(j)) == v.m), [h(j)])),
            ('other links', forall([k], Imp(And(0 <= k, k < v.n - 1, k != v.e), And(Not(q(k).null), q(k).off == E.o(k, 'next_dist').off)), [q(k).off]))]


reg('iscc_hi_get_next_dist', _nd_pre, _nd_post, loops={0: LS(_nd0)}, props=P3)


def _kn_pre(c):
    v = c.v; j, f, k = ivars('j', 'f', 'k'); list_pre(c); v.k = c.a('k')
    v.out = c.arr('out_dist_array', v.k, mod=True)
    v.TT = given(c, 'LEFT', AI); v.HX = given(c, 'HX', AI); h = lambda k: v.E.at(k, 'head')
    c.fact('enough points left in the list', And(v.k >= 1, v.e < v.TT[0], forall([f], Imp(And(0 <= f, f < v.k), And(v.e < v.TT[f], v.TT[f] < v.n, v.V.at(h(v.TT[f])) != v.m)), [v.TT[f]]),
                                                 forall([f], Imp(And(0 <= f, f < v.k - 1), v.TT[f] < v.TT[f + 1]), [v.TT[f]])))
    c.fact('every point is once in the list', forall([k], Imp(And(1 <= k, k < v.n), v.HX[h(k)] == k), [h(k)]))


def found(v, at, h, m, r):
    """at(f), f < m: the points left at e+1..r, in order"""
    f, j = ivars('f', 'j'); HX = v.HX
    return [('points found', forall([f], Imp(And(0 <= f, f < m), And(v.e < HX[at(f)], HX[at(f)] <= r, h(HX[at(f)]) == at(f), v.V.at(at(f)) != v.m, 0 <= at(f), at(f) < v.N)), [at(f)])),
            ('in the order of the list', forall([f, j], Imp(And(0 <= f, f < j, j < m), HX[at(f)] < HX[at(j)]), [(at(f), at(j))])),
            ('last point found', Imp(m >= 1, HX[at(m - 1)] == r))]


def _kn_post(c):
    v = c.v; E = v.E; f, j, k = ivars('f', 'j', 'k'); h = lambda k: E.at(k, 'head'); nx = lambda k: E.at(k, 'next_dist').off

    def ok():
        r = c.witness('r', IS, lambda: c.ret.off)
        c.points('return', Ptr(E.p.obj, r), tags=C3)
        c.fact('the list is not passed', And(v.e < r, r <= v.TT[v.k - 1]), C3)
        for nm, g in found(v, v.out.at, h, v.k, r) + links(nx, h, v.V.at, v.m, v.n):
            c.fact(nm, g, C3)
        FX = c.witness('FX', AI, lambda: c.st.ghosts['FX'])
        c.fact('no point is passed over', forall([j], Imp(And(v.e < j, j <= r, v.V.at(h(j)) != v.m), And(0 <= FX[j], FX[j] < v.k, v.out.at(FX[j]) == h(j))), [h(j)]), C3)
        c.fact('links not null', forall([k], Imp(And(0 <= k, k < v.n - 1), Not(E.at(k, 'next_dist').null)), [nx(k), E.at(k, 'next_dist').null]), C3)
    return [('ok', T, ok)]


def _kn0(L):
    v = L.c.v; E = v.E; j, k = ivars('j', 'k'); m = L.v('found'); p = L.off('prev_dist'); at = lambda f: v.out.rd(L.st, f); FX = L.g('FX'); h = lambda k: E.rd(L.st, k, 'head'); q = lambda k: E.rd(L.st, k, 'next_dist')
    return [('found', And(0 <= m, m <= v.k, Ite(m == 0, p == v.e, And(v.e < p, p <= v.TT[m - 1])), v.e <= p, p < v.n))] + found(v, at, h, m, p) + links(lambda k: q(k).off, h, v.V.at, v.m, v.n) + [
        ('links not null', forall([k], Imp(And(0 <= k, k < v.n - 1), Not(q(k).null)), [q(k).off, q(k).null])),
        ('none passed over', forall([j], Imp(And(v.e < j, j <= p, v.V.at(h(j)) != v.m), And(0 <= FX[j], FX[j] < m, at(FX[j]) == h(j))), [h(j)]))]


def _kn0_step(L):
    L.setg('FX', z3.Store(L.g('FX'), L.off('prev_dist'), L.p('found')))


reg('iscc_hi_get_next_k_nn', _kn_pre, _kn_post,
    loops={0: LS(_kn0, ghosts=('FX',), ghost0=lambda L: (L.setg('FX', const('FX', AI)), L.setg('LAST', L.c.v.TT[0])), head=lambda L: L.setg('LAST', L.c.v.TT[L.v('found')]), step=_kn0_step)}, props=P3)


# ---------------------------------------------------------------- lists sorted by distance
def _cm_pre(c):
    v = c.v; t = c.stype('iscc_hi_DistanceEdge')
    v.x = c.struct('a', elem=t); v.y = c.struct('b', elem=t)


def _cm_post(c):
    x, y = c.v.x('distance'), c.v.y('distance')

    def ok():
        c.fact('sign of the comparison', And((c.ret < 0) == (x < y), (c.ret > 0) == (x > y)), C3)
    return [('ok', T, ok)]


reg('iscc_hi_compare_dist_edges', _cm_pre, _cm_post, props=P3)


def cluster_members(c, N=None):
    v = c.v; v.cl = c.struct('cl'); v.n = v.cl('size')
    v.M = len_into(c, v.cl.loc('members')); v.S, v.b = into(c, v.cl.loc('members'), v.M)
    c.fact('members', And(v.n >= 4, v.b + v.n <= v.M, v.n < (1 << 60)))
    v.N = N if N is not None else given(c, 'POINTS', IS); v.IDX = given(c, 'IDX', AI)
    for nm, f in region(v.S, v.IDX, v.b, v.b + v.n, v.N):
        c.fact(nm, f)


def sorted_list(c, E, S, row, b, n, cx, SRC, DST, at=0):
    """E[1..n-1]: the members other than the one at cx, by distance"""
    k, i, j = ivars('k', 'i', 'j'); h = lambda k: E.at(k, 'head'); d = lambda k: E.at(k, 'distance')
    c.fact('entries of the list', forall([k], Imp(And(1 <= k, k < n), And(0 <= SRC[k], SRC[k] < n, SRC[k] != cx, h(k) == S(b + SRC[k]), d(k) == row(SRC[k]), DST[SRC[k]] == k)), [h(k)]), C3)
    c.fact('every other member is in the list', forall([i], Imp(And(0 <= i, i < n, i != cx), And(1 <= DST[i], DST[i] < n, SRC[DST[i]] == i)), [DST[i]]), C3)
    c.fact('ordered by distance', forall([k, j], Imp(And(1 <= k, k <= j, j < n), d(k) <= d(j)), [(d(k), d(j))]), C3)
    pfield_into(c, E, 'next_dist', E, n - 1)
    c.fact('every entry is linked to the next', And(E.at(n - 1, 'next_dist').null, forall([k], Imp(And(0 <= k, k < n - 1), E.at(k, 'next_dist').off == k + 1), [E.at(k, 'next_dist').off])), C3)


def _se_pre(c):
    v = c.v; cluster_members(c); v.x = c.a('center'); v.cx = v.IDX[v.x] - v.b
    c.fact('the center is a member', And(0 <= v.cx, v.cx < v.n, v.S.at(v.IDX[v.x]) == v.x))
    v.row = c.arr('row_dists', v.n); v.E = c.arr('edge_store', v.n, mod=True)


def _se_post(c):
    v = c.v

    def ok():
        SRC = c.witness('SRC', AI, lambda: c.st.ghosts['SRC']); DST = c.witness('DST', AI, lambda: c.st.ghosts['DST'])
        sorted_list(c, v.E, v.S.at, v.row.at, v.b, v.n, v.cx, SRC, DST)
    return [('ok', T, ok)]


def _se0(L):
    v = L.c.v; k = z3.Int('k'); i = L.v('i'); h = lambda k: v.E.rd(L.st, k, 'head'); d = lambda k: v.E.rd(L.st, k, 'distance')
    s = Ite(k <= v.cx, k - 1, k)
    return [('position', And(0 <= i, i <= v.n, L.off('write_edge') == Ite(i <= v.cx, i + 1, i))),
            ('written', forall([k], Imp(And(1 <= k, k < L.off('write_edge')), And(h(k) == v.S.at(v.b + s), d(k) == v.row.at(s))), [h(k)]))]


def _se1(L):
    v = L.c.v; k = z3.Int('k'); e = L.off('edge'); q = lambda k: v.E.rd(L.st, k, 'next_dist')
    return [('position', And(0 <= e, e <= v.n - 1)), ('linked', forall([k], Imp(And(0 <= k, k < e), And(Not(q(k).null), q(k).off == k + 1)), [q(k).off, q(k).null]))]


def _se1_g0(L):
    v = L.c.v; k = z3.Int('k'); PI, IPI = L.g('qsort.from'), L.g('qsort.to'); SRC, DST = const('SRC', AI), const('DST', AI)
    L.assume_def(forall([k], SRC[k] == Ite(PI[k] <= v.cx, PI[k] - 1, PI[k]), [SRC[k]]), 'ghost')
    L.assume_def(forall([k], DST[k] == IPI[Ite(k < v.cx, k + 1, k)], [DST[k]]), 'ghost')
    L.setg('SRC', SRC); L.setg('DST', DST)


reg('iscc_hi_sort_edge_list', _se_pre, _se_post, loops={0: LS(_se0), 1: LS(_se1, ghost0=_se1_g0)}, props=P3)


def _pe_pre(c):
    v = c.v; v.d, N = ds_arg(c); cluster_members(c, N); v.w = work_area(c, N)
    c.fact('work area: room', And(v.w.nDA >= 2 * v.n, v.w.nE1 >= v.n, v.w.nE2 >= v.n))
    for i in (1, 2):
        x = c.a('center%d' % i); setattr(v, 'x%d' % i, x); cx = v.IDX[x] - v.b; setattr(v, 'c%d' % i, cx)
        c.fact('center %d is a member' % i, And(0 <= cx, cx < v.n, v.S.at(v.IDX[x]) == x))
    c.fact('two centers', v.x1 != v.x2)
    if c.mode == 'verify':
        c.st.ghosts = dict(c.st.ghosts); c.st.ghosts['POINTS'] = N


def _pe_post(c):
    v = c.v

    def ok():
        for i, E, x, cx in ((1, v.w.E1, v.x1, v.c1), (2, v.w.E2, v.x2, v.c2)):
            SRC = c.witness('SRC%d' % i, AI, lambda: c.st.ghosts['SRC%d' % i]); DST = c.witness('DST%d' % i, AI, lambda: c.st.ghosts['DST%d' % i])
            sorted_list(c, E, v.S.at, lambda j, x=x: EDIST(v.d, x, v.S.at(v.b + j)), v.b, v.n, cx, SRC, DST)
    return [('ok', c.ret == EC(c, 'OK'), ok), ('error search', c.ret == EC(c, 'DIST_SEARCH_ERROR'), None)]


def _pe_after(c, o):
    g = dict(c.st.ghosts); i = 1 if 'SRC1' not in g else 2
    for a in ('SRC', 'DST'):
        g[a + str(i)] = g['iscc_hi_sort_edge_list.' + a]
    c.st.ghosts = g


r = reg('iscc_hi_populate_edge_lists', _pe_pre, _pe_post, props=P3 + ('C11',))
r.after = {'iscc_hi_sort_edge_list': _pe_after}


# ---------------------------------------------------------------- two centers
def _fc_pre(c):
    v = c.v; z = z3.Int('z'); v.d, N = ds_arg(c)
    v.cl = c.struct('cl', mod=('marker',)); v.n = v.cl('size'); v.N = N
    v.M = len_into(c, v.cl.loc('members')); v.S, v.b = into(c, v.cl.loc('members'), v.M)
    v.w = work_area(c, N); v.V = v.w.V
    c.fact('members', And(v.n >= 4, v.n <= N, v.b + v.n <= v.M, N < (1 << 60)))
    c.fact('work area: room', And(v.w.nA1 >= 100, v.w.nA2 >= 100, v.w.nDA >= 100))
    v.IDX = given(c, 'IDX', AI)
    for nm, f in region(v.S, v.IDX, v.b, v.b + v.n, N):
        c.fact(nm, f)
    c.fact('markers of the members', forall([z], Imp(And(v.b <= z, z < v.b + v.n), v.V.at(v.S.at(z)) <= v.cl('marker')), [v.S.at(z)]))
    v.o1, v.o2 = c.struct('out_center1', mod=True), c.struct('out_center2', mod=True)


def member(v, x):
    return And(v.b <= v.IDX[x], v.IDX[x] < v.b + v.n, v.S.at(v.IDX[x]) == x)


def _fc_marks(v, V, m):
    x = z3.Int('x')
    return [('markers of the members', forall([x], Imp(And(v.b <= v.IDX[x], v.IDX[x] < v.b + v.n), V(x) <= m), [V(x)])),
            ('markers of other points', forall([x], Imp(Not(And(v.b <= v.IDX[x], v.IDX[x] < v.b + v.n)), V(x) == v.V.o(x)), [V(x)]))]


def _fc_post(c):
    v = c.v

    def marked():
        for nm, f in _fc_marks(v, v.V.at, v.cl('marker')):
            c.fact(nm, f, C3)

    def ok():
        c.fact('two members', And(member(v, v.o1('')), member(v, v.o2('')), v.o1('') != v.o2('')), C3)
        marked()
    return [('ok', c.ret == EC(c, 'OK'), ok), ('error search', c.ret == EC(c, 'DIST_SEARCH_ERROR'), marked)]


def _fc_to(L, lo, hi):
    v = L.c.v; j = z3.Int('j'); t = lambda k: v.w.A1.rd(L.st, k)
    return ('points to check', forall([j], Imp(And(lo <= j, j < hi), member(v, t(j))), [t(j)]))


def _fc_common(L):
    v = L.c.v
    return _fc_marks(v, lambda x: v.V.rd(L.st, x), v.cl._rd(L.st, 'marker'))


def _fc0(L):
    v = L.c.v; i = L.v('i')
    return [('position', And(0 <= i, i <= L.v('num_to_check'))), _fc_to(L, 0, i)] + _fc_common(L)


def arithmetic(L, name, f, args, tags):
    """f holds for all integers (proved on its own), hence for args"""
    keep = list(L.st.pc); L.st.pc[:] = []
    L.eng.oblige(L.st, 'lemma', name, f(lambda a, b: a * b, *[z3.Int('arg%d' % k) for k in range(len(args))]), tags, assume=False)
    L.st.pc[:] = keep
    L.st.assume(f(mul, *args), name)


def _fc0_head(L):
    v = L.c.v; i, s = L.v('i'), L.v('step')
    more = i < L.v('num_to_check'); t = C3 + ('C12',); q = (v.n - 1) / s
    arithmetic(L, 'a quotient times the divisor', lambda m, n, s: Imp(s >= 1, m(n / s, s) <= n), (v.n - 1, s), t)
    arithmetic(L, 'products are monotone', lambda m, i, q, s: Imp(And(0 <= i, i <= q, 0 <= s), And(0 <= m(i, s), m(i, s) <= m(q, s))), (i, q, s), t)
    L.by('at most the quotient', Imp(more, And(i >= 0, i <= q, s >= 1)), None, t, only=[])
    L.by('inside the members', Imp(more, And(mul(i, s) >= 0, mul(i, s) <= v.n - 1)), None, t, only=[])


def _fc_best(L):
    v = L.c.v; m = L.v('max_dist')
    return lambda left: ('centers so far', Or(And(m >= 0, member(v, v.o1._rd(L.st, '')), member(v, v.o2._rd(L.st, ''))), And(m == -1, left)))


def _fc1(L):
    n = L.v('num_to_check')
    return [('position', And(0 <= n, n <= 100)), _fc_to(L, 0, n), _fc_best(L)(n >= 1)] + _fc_common(L)


def _fc2(L):
    v = L.c.v; n, i, w = L.v('num_to_check'), L.v('i'), L.v('write_in_to_check'); j = z3.Int('j'); mi = lambda j: v.w.A2.rd(L.st, j)
    return [('position', And(0 <= w, w <= i, i <= n, n <= 100)), _fc_to(L, 0, n), _fc_best(L)(i == 0)] + _fc_common(L)


reg('iscc_hi_find_centers', _fc_pre, _fc_post, loops={0: LS(_fc0, head=_fc0_head), 1: LS(_fc1), 2: LS(_fc2)}, props=P3 + ('C11',))
