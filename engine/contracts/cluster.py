"""nng_core.c and nng_clustering.c: clusters from seeds (C01, C02, C08, C09)"""
from .base import *
from .spi import *
from .findseeds import const, ghost, seed_facts, no_repeats, maximal
from .options import options_arg, opt_ok, opt_rules
from .nng import primary_arg, inverse_exists
from .core import cl_valid, clustering_arg
from vc import AV as AV_, I2D
C9 = ('C09', 'C01')
LS = LoopSpec


def given(c, name, sort, *sources):
    """a ghost argument: arbitrary in the verification of the body, the witness of the same name at a call"""
    if c.producing():
        w = const(name, sort)
        c.st.ghosts = dict(c.st.ghosts); c.st.ghosts[name] = w
        return w
    for n in (name,) + tuple(s + '.' + name for s in sources):
        if n in c.st.ghosts:
            return c.st.ghosts[n]
    raise Unsupported('no witness %s at this call' % name)


def labelled(lab, na, y):
    return Ite(lab(y) != na, I(1), I(0))


def count_facts(lab, na, CNT, n):
    """CNT[y]: number of points below y with a label"""
    y = z3.Int('y')
    return And(CNT[0] == 0, forall([y], Imp(And(0 <= y, y < n), CNT[y + 1] == CNT[y] + labelled(lab, na, y)), [CNT[y + 1], lab(y)]))


def count_bounds(x, lab, na, CNT, n, tags=C9):
    y = z3.Int('y')
    x.induct('labelled points are at most all', [], y, I(0), n, lambda y: And(0 <= CNT[y], CNT[y] <= y), [CNT[y]], tags)


# ---------------------------------------------------------------- seeds and their neighbours
def seeds_arg(c, N, t, h):
    v = c.v
    sr = c.struct('seed_result'); v.sr = sr
    v.cnt = sr('count')
    c.fact('number of seeds', And(v.cnt >= 1, v.cnt <= sr('capacity'), v.cnt <= c.const('SCC_CLABEL_MAX'), sr('capacity') <= (1 << 60)))
    v.sd = c.arr(sr.loc('seeds'), sr('capacity'))
    v.OWN, v.OWP = given(c, 'OWN', AI, 'iscc_find_seeds'), given(c, 'OWP', AI, 'iscc_find_seeds')
    for nm, f in seed_facts(N, t, h, v.sd.at, v.cnt, v.OWN, v.OWP, both=c.producing()):
        c.fact('seeds: ' + nm, f)
    c.fact('no arc twice', no_repeats(t, h, N))


def labels_arg(c, mod=('num_clusters',)):
    v = c.v
    v.cl = c.struct('clustering', mod=mod)
    v.N = v.cl('num_data_points')
    c.fact('number of points', And(v.N >= 1, v.N <= c.const('ISCC_POINTINDEX_MAX')))
    v.lab = c.arr(v.cl.loc('cluster_label'), v.N, mod=True)


def graph_arg(c, mod=False):
    v = c.v
    v.sv, v.t, v.h = dg_in(c, 'nng', mod=mod, heap=mod)
    c.fact('graph over the points', And(v.sv('vertices') == v.N))


def _an_pre(c):
    labels_arg(c); graph_arg(c)
    seeds_arg(c, c.v.N, c.v.t.at, c.v.h.at)


def own_label(c, x):
    return Ite(c.v.OWN[x] == -1, NA(c), c.v.OWN[x])


def _an_post(c):
    v = c.v; x = z3.Int('x')

    def body():
        CNT = ghost(c, 'CNT', AI)
        c.fact('number of clusters', v.cl('num_clusters') == v.cnt, C9 + ('C08',))
        c.fact('seeds and their neighbours are labelled with the seed, others are not', forall([x], Imp(And(0 <= x, x < v.N), v.lab.at(x) == own_label(c, x)), [v.lab.at(x)]), C9 + ('C08',))
        c.fact('labelled points counted', And(count_facts(v.lab.at, NA(c), CNT, v.N), c.ret == CNT[v.N]), C9)
    return [('done', T, body)]


def _an0(L):
    v = L.c.v; x = z3.Int('x')
    return [('cleared', forall([x], Imp(And(0 <= x, x < L.v('i')), v.lab.at(x) == NA(L.c)), [v.lab.at(x)]))]


def _an_own(L, s):
    c = L.c; v = c.v; x = z3.Int('x')
    return v.OWN[x], And(v.OWN[x] != -1, v.OWN[x] < s)


def _an1(L):
    c = L.c; v = c.v; x = z3.Int('x'); s = L.off('seed')
    return [('position', And(0 <= s, s <= v.cnt, L.v('clabel') == s, v.cl('num_clusters') == v.cnt)),
            ('labelled so far', forall([x], Imp(And(0 <= x, x < v.N), v.lab.at(x) == Ite(And(v.OWN[x] != -1, v.OWN[x] < s), v.OWN[x], NA(c))), [v.lab.at(x)])),
            ('count', count_facts(v.lab.at, NA(c), L.g('CNT'), v.N)), ('number assigned', L.v('num_assigned') == L.g('CNT')[v.N])]


def _an2(L):
    c = L.c; v = c.v; x, p = ivars('x', 'p'); s = L.off('seed'); q = L.off('s_arc'); sd = v.sd.at(s); t, h = v.t.at, v.h.at; W = L.g('W')
    lab = v.lab.at
    return [('position', And(t(sd) <= q, q <= t(sd + 1), L.v('clabel') == s, v.cl('num_clusters') == v.cnt)),
            ('row so far', forall([p], Imp(And(t(sd) <= p, p < q), lab(h(p)) == s), [h(p)])),
            ('earlier seeds', forall([x], Imp(And(0 <= x, x < v.N, v.OWN[x] != -1, v.OWN[x] < s), lab(x) == v.OWN[x]), [lab(x)])),
            ('others', forall([x], Imp(And(0 <= x, x < v.N, lab(x) != NA(c)), And(v.OWN[x] != -1, v.OWN[x] <= s, lab(x) == v.OWN[x], Or(v.OWN[x] < s, And(t(sd) <= W[x], W[x] < q, h(W[x]) == x)))), [lab(x)])),
            ('count', And(count_facts(lab, NA(c), L.g('CNT'), v.N), L.v('num_assigned') + (q - t(sd)) == L.g('CNT')[v.N]))]


def bump(L, CNT, z, when=T):
    """the count after point z got a label"""
    C2 = const('CNT', AI); k = z3.Int('k')
    L.assume_def(forall([k], C2[k] == CNT[k] + Ite(And(when, k > z), I(1), I(0)), [C2[k]]), 'ghost')
    return C2


def _an1_g0(L):
    y = z3.Int('y')
    C = const('CNT', AI)
    L.assume_def(forall([y], C[y] == 0, [C[y]]), 'ghost'); L.setg('CNT', C); L.setg('W', const('W', AI))


def _an1_head(L):
    v = L.c.v
    count_bounds(L, v.lab.at, NA(L.c), L.g('CNT'), v.N)


def _an2_step(L):
    v = L.c.v; q = L.p('s_arc').off; z = v.h.at(q)
    L.setg('W', z3.Store(L.g('W'), z, q))
    L.setg('CNT', bump(L, L.g('CNT'), z))


def _an1_step(L):
    """the seed itself, if it has no arc to itself"""
    v = L.c.v; sd = v.sd.at(L.p('seed').off)
    C0, A = L.g('CNT'), L.g('LABI'); y = z3.Int('y'); na = NA(L.c); st = L.st
    C1 = bump(L, C0, sd, L.g('LS') == na)
    L.setg('CNT', C1)
    A0 = lambda y: z3.Select(A, add(v.lab.p.off, y))
    L.lemma('labels after the seed', forall([y], Imp(And(0 <= y, y < v.N), And(labelled(v.lab.at, na, y) == labelled(A0, na, y) + Ite(And(L.g('LS') == na, y == sd), I(1), I(0)), C0[y + 1] == C0[y] + labelled(A0, na, y))), [v.lab.at(y)]), C9)
    L.by('count', count_facts(v.lab.at, na, C1, v.N), None, C9, only=('ghost', 'labels after the seed'))
    L.induct('labelled points after the seed', [], y, I(0), v.N, lambda y: And(0 <= C1[y], C1[y] <= y), [C1[y]], C9)
    L.lemma('number after the seed', And(0 <= sd, sd < v.N, C1[v.N] == C0[v.N] + Ite(L.g('LS') == na, I(1), I(0)), C1[v.N] <= v.N, v.t.at(sd + 1) - v.t.at(sd) <= C0[v.N]), C9)


def _an2_exit(L):
    v = L.c.v
    L.setg('LS', v.lab.at(v.sd.at(L.off('seed')))); L.setg('LABI', v.lab.raw())
    L.induct('labelled points after the row', [], z3.Int('y'), I(0), v.N, lambda y: And(0 <= L.g('CNT')[y], L.g('CNT')[y] <= y), [L.g('CNT')[z3.Int('y')]], C9)


reg('iscc_assign_seeds_and_neighbors', _an_pre, _an_post,
    loops={0: LS(_an0), 1: LS(_an1, ghosts=('CNT', 'W', 'LS', 'LABI'), ghost0=lambda L: (_an1_g0(L), L.setg('LS', I(0)), L.setg('LABI', const('LABI', AI))), head=_an1_head, step=_an1_step), 2: LS(_an2, ghosts=('CNT', 'W'), ghost0=lambda L: L.setg('W', const('W', AI)), step=_an2_step, exit=_an2_exit)},
    props=('C01', 'C02', 'C08', 'C09', 'C12'))


# ---------------------------------------------------------------- leftover points by the graph
def _ag_pre(c):
    labels_arg(c, ()); graph_arg(c)


def by_nng(t, h, lab0, lab, na, AP, x):
    """AP[x]: position of the first arc of an unlabelled x to a labelled point, -1 if there is none"""
    p = z3.Int('p')
    return Ite(lab0(x) != na, lab(x) == lab0(x), Ite(AP[x] == -1, lab(x) == na, And(t(x) <= AP[x], AP[x] < t(x + 1), lab(x) == lab0(h(AP[x])), lab0(h(AP[x])) != na)))


def nng_facts(c, AP, hi, lab):
    v = c.v; x, p = ivars('x', 'p'); na = NA(c); t, h = v.t.at, v.h.at
    stop = Ite(AP[x] == -1, t(x + 1), AP[x])
    return [('points get the label of their first labelled neighbour', forall([x], Imp(And(0 <= x, x < hi), by_nng(t, h, v.lab.o, lab, na, AP, x)), [lab(x)])),
            ('neighbours before it are not labelled', forall([x, p], Imp(And(0 <= x, x < hi, v.lab.o(x) == na, t(x) <= p, p < stop), v.lab.o(h(p)) == na), [(AP[x], h(p))]))]


def ca_facts(c, CA, hi, lab):
    v = c.v; x = z3.Int('x'); na = NA(c)
    return And(CA[0] == 0, forall([x], Imp(And(0 <= x, x < hi), And(0 <= CA[x], CA[x] <= x, CA[x + 1] == CA[x] + Ite(And(v.lab.o(x) == na, lab(x) != na), I(1), I(0)))), [lab(x)]))


def _ag_post(c):
    v = c.v

    def ok():
        AP, CA = ghost(c, 'AP', AI), ghost(c, 'CA', AI)
        for nm, f in nng_facts(c, AP, v.N, v.lab.at):
            c.fact(nm, f, C9)
        c.fact('newly labelled points counted', And(ca_facts(c, CA, v.N, v.lab.at), c.ret == CA[v.N], c.ret <= v.N), C9)
    SM = I((1 << 64) - 1)
    return [('ok', c.ret != SM, ok), ('no memory', And(c.ret == SM, oom(c)), lambda: c.fact('labels kept', unchanged(c, v.lab), C9))]


def _ag0(L):
    c = L.c; v = c.v; x = z3.Int('x'); s = L.arr('scratch')
    return [('marks', forall([x], Imp(And(0 <= x, x < L.v('i')), s.at(x) == (v.lab.at(x) == NA(c))), [s.at(x)]))]


def _ag1(L):
    c = L.c; v = c.v; x = z3.Int('x'); s = L.arr('scratch'); i = L.v('i')
    return [('marks', forall([x], Imp(And(0 <= x, x < v.N), s.at(x) == (v.lab.o(x) == NA(c))), [s.at(x)])),
            ('points to come', forall([x], Imp(And(i <= x, x < v.N), v.lab.at(x) == v.lab.o(x)), [v.lab.at(x)])),
            ('labels of labelled points are kept', forall([x], Imp(And(0 <= x, x < v.N, v.lab.o(x) != NA(c)), v.lab.at(x) == v.lab.o(x)), [v.lab.at(x)])),
            ('count', And(ca_facts(c, L.g('CA'), i, v.lab.at), L.v('num_assigned_by_nng') == L.g('CA')[i], 0 <= L.g('CA')[i], L.g('CA')[i] <= i))] + nng_facts(c, L.g('AP'), i, v.lab.at)


def _ag2(L):
    c = L.c; v = c.v; p = z3.Int('p'); q = L.off('v_arc'); i = L.v('i'); t, h = v.t.at, v.h.at
    return [('position', And(t(i) <= q, q <= t(i + 1))), ('passed arcs', forall([p], Imp(And(t(i) <= p, p < q), v.lab.o(h(p)) == NA(c)), [h(p)]))]


def _ag2_exit(L):
    L.setg('CUR', L.off('v_arc'))


def _ag1_step(L):
    c = L.c; v = c.v; i = L.p('i')
    L.setg('CA', z3.Store(L.g('CA'), i + 1, L.v('num_assigned_by_nng')))
    L.setg('AP', z3.Store(L.g('AP'), i, Ite(L.g('CUR') == v.t.at(i + 1), I(-1), L.g('CUR'))))


reg('iscc_assign_by_nng', _ag_pre, _ag_post,
    loops={0: LS(_ag0), 1: LS(_ag1, ghosts=('CA', 'AP', 'CUR'), ghost0=lambda L: (L.setg('CA', z3.Store(const('CA', AI), 0, I(0))), L.setg('AP', const('AP', AI)), L.setg('CUR', I(0))), step=_ag1_step),
           2: LS(_ag2, exit=_ag2_exit)}, props=('C09', 'C11', 'C12'))


# ---------------------------------------------------------------- leftover points by a search for the nearest labelled point
def _as_pre(c):
    v = c.v; i, j, x = ivars('i', 'j', 'x'); na = NA(c)
    labels_arg(c, ())
    v.o, v.hd = handle_arg(c, 'nn_search_object')
    c.fact('points of the data set', v.hd.N == v.N)
    v.m = c.a('num_to_assign')
    v.ta = c.arr('to_assign', v.m, mod=True)
    c.fact('number of points to assign', And(v.m >= 1, v.m <= v.N))
    c.fact('points to assign have no label', forall([i], Imp(And(0 <= i, i < v.m), And(v.ta.at(i) >= 0, v.ta.at(i) < v.N, v.lab.at(v.ta.at(i)) == na)), [v.ta.at(i)]))
    c.fact('points to assign differ', forall([i, j], Imp(And(0 <= i, i < j, j < v.m), v.ta.at(i) < v.ta.at(j)), [(v.ta.at(i), v.ta.at(j))]))
    c.fact('search points have labels', forall([x], Imp(And(0 <= x, x < v.hd.n), And(v.hd.si(x) >= 0, v.hd.si(x) < v.N, v.lab.at(v.hd.si(x)) != na)), [v.hd.si(x)]))
    c.fact('radius positive', Imp(c.a('radius_constraint'), c.a('radius') > 0))


def near_facts(ds, si, n, m, q, NX, rad, R):
    """NX[i]: position of the nearest search point of the i-th point q(i), -1 if none is within the radius"""
    i, y = ivars('i', 'y')
    D = lambda i, y: DIST(ds, q(i), si(y))
    return [('nearest point', forall([i], Imp(And(0 <= i, i < m, NX[i] != -1), And(0 <= NX[i], NX[i] < n, Imp(rad, D(i, NX[i]) <= R))), [NX[i]])),
            ('no point is nearer', forall([i, y], Imp(And(0 <= i, i < m, NX[i] != -1, 0 <= y, y < n), D(i, NX[i]) <= D(i, y)), [(NX[i], si(y))])),
            ('none in reach', forall([i, y], Imp(And(0 <= i, i < m, NX[i] == -1, 0 <= y, y < n), And(rad, D(i, y) > R)), [(NX[i], si(y))]))]


def _as_post(c):
    v = c.v; i, x = ivars('i', 'x'); na = NA(c)

    def ok():
        NX = ghost(c, 'NX', AI); TI = ghost(c, 'TI', AI)
        for nm, f in near_facts(v.hd.ds, v.hd.si, v.hd.n, v.m, v.ta.o, NX, c.a('radius_constraint'), RAD(c.a('radius'))):
            c.fact(nm, f, C9)
        c.fact('positions of the points', And(forall([x], Or(TI[x] == -1, And(0 <= TI[x], TI[x] < v.m, v.ta.o(TI[x]) == x)), [TI[x]]), forall([i], Imp(And(0 <= i, i < v.m), TI[v.ta.o(i)] == i), [v.ta.o(i)])), C9)
        c.fact('points get the label of the nearest point in reach', forall([x], Imp(And(0 <= x, x < v.N), v.lab.at(x) == Ite(Or(TI[x] == -1, NX[TI[x]] == -1), v.lab.o(x), v.lab.o(v.hd.si(NX[TI[x]])))), [v.lab.at(x)]), C9)
        c.fact('so no label is removed', forall([x], Imp(And(0 <= x, x < v.N, TI[x] == -1), v.lab.at(x) == v.lab.o(x)), [v.lab.at(x)]), C9)
    keep = lambda: c.fact('labels kept', unchanged(c, v.lab), C9)
    return [('ok', c.ret == EC(c, 'OK'), ok), ('error no memory', And(c.ret == EC(c, 'NO_MEMORY'), oom(c)), keep), ('error search', c.ret == EC(c, 'DIST_SEARCH_ERROR'), keep)]


def _as_inv(L):
    c = L.c; v = c.v; x = z3.Int('x'); i = L.v('i'); G = L.st.ghosts; NX, TI = G['NX'], G['TI']
    RK = G['iscc_nearest_neighbor_search.RK']
    got = And(TI[x] != -1, NX[TI[x]] != -1, RK[TI[x]] < i)
    return [('labels so far', forall([x], Imp(And(0 <= x, x < v.N), v.lab.at(x) == Ite(got, v.lab.o(v.hd.si(NX[TI[x]])), v.lab.o(x))), [v.lab.at(x)]))]


def _as_g0(L):
    c = L.c; v = c.v; i, r, y = ivars('i', 'r', 'y'); G = L.st.ghosts; key = 'iscc_nearest_neighbor_search.'
    P, Q, Fq, RK, QR = [G[key + n] for n in ('Pq', 'Qq', 'Fq', 'RK', 'QR')]
    NX = const('NX', AI)
    L.assume_def(forall([i], NX[i] == Ite(Fq[i] == 1, P[i][0], I(-1)), [NX[i]]), 'ghost')
    L.setg('NX', NX); L.setg('TI', inverse_exists(L.st, v.ta.o, v.m, 'TI'))
    ok = L.arr('out_ok_query').at; nn = L.arr('out_nn_indices').at; nok = L.v('num_ok_queries')
    ds, si, n = v.hd.ds, v.hd.si, v.hd.n; rad, R = c.a('radius_constraint'), RAD(c.a('radius')); D = lambda i, y: DIST(ds, v.ta.o(i), si(y))
    L.by('first listed point', forall([i], Imp(And(0 <= i, i < v.m), And(Or(Fq[i] == 0, Fq[i] == 1), Imp(Fq[i] == 0, rad), Imp(Fq[i] == 1, And(NX[i] == P[i][0], 0 <= P[i][0], P[i][0] < n, Q[i][P[i][0]] == 0, nn(RK[i]) == si(P[i][0]), Imp(rad, D(i, P[i][0]) <= R))))), [NX[i], Fq[i]]), None, C9, drop=('rank', 'ordered by', 'left out'))
    L.by('other points', forall([i, y], Imp(And(0 <= i, i < v.m, 0 <= y, y < n), Ite(Q[i][y] == -1, Or(And(rad, D(i, y) > R), And(Fq[i] == 1, D(i, y) >= D(i, P[i][0]))), And(Fq[i] == 1, P[i][0] == y))), [(NX[i], si(y))]), None, C9, drop=('rank', 'ordered by', 'reported'))
    L.by('reported points by rank', forall([r], Imp(And(0 <= r, r < nok), And(0 <= QR[r], QR[r] < v.m, Fq[QR[r]] == 1, RK[QR[r]] == r, ok(r) == v.ta.o(QR[r]))), [QR[r], ok(r), nn(r)]), None, C9, drop=('ordered by', 'left out'))
    L.by('reported points', forall([r], Imp(And(0 <= r, r < nok), And(0 <= QR[r], QR[r] < v.m, RK[QR[r]] == r, ok(r) == v.ta.o(QR[r]), NX[QR[r]] != -1, nn(r) == si(NX[QR[r]]), 0 <= NX[QR[r]], NX[QR[r]] < n)), [QR[r], ok(r), nn(r)]), None, C9, only=('ghost', 'reported points by rank', 'first listed point'))
    for nm, f in near_facts(ds, si, n, v.m, v.ta.o, NX, rad, R):
        L.by(nm, f, None, C9, only=('ghost', 'first listed point', 'other points'))
    L.lemma('all reachable are reported', forall([i], Imp(And(0 <= i, i < v.m, NX[i] != -1), And(RK[i] < nok, 0 <= RK[i])), [NX[i]]), C9)
    L.lemma('ranks differ', forall([i, y], Imp(And(0 <= i, i < v.m, 0 <= y, y < v.m, NX[i] != -1, NX[y] != -1, RK[i] == RK[y]), i == y), [(NX[i], NX[y])]), C9)


r = reg('iscc_assign_by_nn_search', _as_pre, _as_post, loops={0: LS(_as_inv, ghost0=_as_g0)}, props=('C09', 'C11', 'C12', 'C16'))
r.variants = [{'sn': False}]


# ---------------------------------------------------------------- all points, from seeds and options
UM = ('SCC_UM_IGNORE', 'SCC_UM_ANY_NEIGHBOR', 'SCC_UM_CLOSEST_ASSIGNED', 'SCC_UM_CLOSEST_SEED')


def _mc_pre(c):
    v = c.v; i = z3.Int('i')
    labels_arg(c)
    v.ds, n = ds_arg(c)
    c.fact('points of the data set', And(n == v.N, n >= 2))
    graph_arg(c, True)
    c.fact('graph has arcs', v.t.at(v.N) > 0)
    seeds_arg(c, v.N, v.t.at, v.h.at)
    v.um, v.sum = c.a('unassigned_method'), c.a('secondary_unassigned_method')
    v.K = {k: c.const(k) for k in UM}
    c.fact('methods', And(Or(*[v.um == v.K[k] for k in UM]), Or(*[v.sum == v.K[k] for k in UM if 'ANY' not in k])))
    c.fact('radius positive', And(Imp(c.a('radius_constraint'), c.a('radius') > 0), Imp(c.a('secondary_radius_constraint'), c.a('secondary_radius') > 0)))
    if c.producing() and c.variant:
        c.st.assume(And(v.um == v.K[c.variant['um']], v.sum == v.K[c.variant['sum']]), 'variant')
    v.np = c.a('len_primary_data_points')
    v.pr = c.arr('primary_data_points', v.np, null='maybe')
    j = z3.Int('j')
    c.fact('primary points', Or(v.pr.isnull, And(1 <= v.np, v.np <= v.N)))
    c.fact('primary points: data points', forall([i], Imp(And(Not(v.pr.isnull), 0 <= i, i < v.np), And(v.pr.at(i) >= 0, v.pr.at(i) < v.N)), [v.pr.at(i)]))
    c.fact('primary points: sorted', forall([i, j], Imp(And(Not(v.pr.isnull), 0 <= i, i < j, j < v.np), v.pr.at(i) < v.pr.at(j)), [(v.pr.at(i), v.pr.at(j))]))
    v.T = [v.t.at, v.h.at]; v.SD = v.sd.at


class Stage:
    """who gave each point its label: ST[x] 0 nobody, 1 its seed, 2 the first labelled neighbour in the graph, 3 the primary search, 4 the secondary search; SRC[x] the arc, or the point found"""

    def __init__(s, c, ST, SRC, PI, v=None, ordered=None, rad=None):
        s.c, s.ST, s.SRC, s.PI = c, ST, SRC, PI
        v = v or c.v; s.v = v; K = v.K
        s.usenng = Or(v.um == K[UM[1]], And(c.a('nng_is_ordered') if ordered is None else ordered, v.um == K[UM[2]]))
        s.rad = rad or (c.a('radius_constraint'), c.a('radius'), c.a('secondary_radius_constraint'), c.a('secondary_radius'))

    def target(s, m, y):
        v = s.v
        return And(v.OWN[y] != -1, Or(m == v.K[UM[2]], v.SD(v.OWN[y]) == y))

    def prim(s, x):
        return Or(s.v.pr.isnull, s.PI[x] != -1)

    def facts(s, lab, level):
        c, v, ST, SRC = s.c, s.v, s.ST, s.SRC; N, OWN, ds = v.N, v.OWN, v.ds; t, h = v.T; na = NA(c)
        x, y, p, j = ivars('x', 'y', 'p', 'j'); inx = And(0 <= x, x < N); iny = And(0 <= y, y < N)
        r = [('who labelled', forall([x], Imp(inx, And(0 <= ST[x], ST[x] <= level, (ST[x] == 1) == (OWN[x] != -1), (ST[x] == 0) == (lab(x) == na), Imp(ST[x] == 1, lab(x) == OWN[x]))), [lab(x), ST[x]])),
             ('labels through the graph', forall([x], Imp(And(inx, ST[x] == 2), And(s.usenng, t(x) <= SRC[x], SRC[x] < t(x + 1), OWN[h(SRC[x])] != -1, lab(x) == OWN[h(SRC[x])])), [ST[x]])),
             ('first labelled neighbour', forall([x, p], Imp(And(s.usenng if level >= 2 else F, inx, OWN[x] == -1, t(x) <= p, p < Ite(ST[x] == 2, SRC[x], t(x + 1))), OWN[h(p)] == -1), [(ST[x], h(p))]))]
        for lv, nm, m, rad, R, who in ((3, 'primary', v.um, s.rad[0], s.rad[1], s.prim(x)), (4, 'secondary', v.sum, s.rad[2], s.rad[3], T)):
            act = Or(m == v.K[UM[2]], m == v.K[UM[3]])
            z = SRC[x]; D = lambda y: DIST(ds, x, y)
            r.append(('%s search: point found' % nm, forall([x], Imp(And(inx, ST[x] == lv), And(act, who, 0 <= z, z < N, s.target(m, z), lab(x) == OWN[z], Imp(rad, D(z) <= RAD(R)))), [ST[x]])))
            r.append(('%s search: no point is nearer' % nm, forall([x, y], Imp(And(inx, ST[x] == lv, iny, s.target(m, y)), D(z) <= D(y)), [(ST[x], OWN[y])])))
            if level >= lv:
                r.append(('%s search: none in reach' % nm, forall([x, y], Imp(And(inx, act, who, Or(ST[x] == 0, ST[x] > lv), iny, s.target(m, y)), And(rad, D(y) > RAD(R))), [(ST[x], OWN[y])])))
        return r


def pi_facts(c, PI):
    v = c.v; x, j = ivars('x', 'j')
    return And(forall([x], Or(v.pr.isnull, PI[x] == -1, And(0 <= PI[x], PI[x] < v.np, v.pr.o(PI[x]) == x)), [PI[x]]), forall([j], Imp(And(Not(v.pr.isnull), 0 <= j, j < v.np), PI[v.pr.o(j)] == j), [v.pr.o(j)]))


def _mc_post(c):
    v = c.v
    kept = lambda: v.sv('vertices') == v.N
    gone = lambda: v.sv('vertices') == 0
    fields = ('vertices', 'max_arcs', 'tail_ptr', 'head')

    def keep():
        for f in fields:
            c.same(v.sv.loc(f))

    def free():
        c.freed(v.t); c.freed(v.h); c.null(v.sv.loc('tail_ptr')); c.null(v.sv.loc('head'))
        c.fact('null digraph', And(v.sv('vertices') == 0, v.sv('max_arcs') == 0))

    def ok():
        if not c.producing():
            _mc_final(c)
        ST, SRC, PI = [ghost(c, n, AI) for n in ('ST', 'SRC', 'PI')]
        c.fact('number of clusters', v.cl('num_clusters') == v.cnt, C9 + ('C08',))
        c.fact('primary points by number', pi_facts(c, PI), C9)
        for nm, f in Stage(c, ST, SRC, PI).facts(v.lab.at, 4):
            c.fact(nm, f, C9 + ('C08',))
    r = []
    for nm, code, g, body in (('ok', 'OK', T, ok), ('error no memory', 'NO_MEMORY', oom(c), None), ('error search', 'DIST_SEARCH_ERROR', T, None)):
        for kn, kg, kb in (('graph kept', kept, keep), ('graph released', gone, free)):
            if code == 'DIST_SEARCH_ERROR' and kn == 'graph kept':
                continue
            r.append((nm + ', ' + kn, (lambda code=code, g=g, kg=kg: And(c.ret == EC(c, code), g, kg())), (lambda kb=kb, body=body: (kb(), body() if body else None))))
    return r


def _pi(x):
    """inverse of the primary list"""
    if 'PI' not in x.st.ghosts:
        c = getattr(x, 'c', x); v = c.v
        PI = inverse_exists(x.st, v.pr.o, Ite(v.pr.isnull, I(0), v.np), 'PI')
        x.setg('PI', PI)
    return x.st.ghosts['PI']


def _ctx(x):
    return x.c if isinstance(x, LCtx) else x


def _mc_stage1(x):
    """after the seeds and their neighbours"""
    c = _ctx(x); v = c.v; k, a, b = ivars('k', 'a', 'b'); G = x.st.ghosts
    CNT = G['iscc_assign_seeds_and_neighbors.CNT']
    ST = const('ST', AI); SRC = const('SRC', AI)
    x.assume_def(forall([k], ST[k] == Ite(v.OWN[k] == -1, I(0), I(1)), [ST[k]]), 'ghost')
    x.setg('ST', ST); x.setg('SRC', SRC); x.setg('CN', CNT)
    _pi(x)
    l1 = x.call('iscc_assign_by_nng').v.lab.o if '@iscc_assign_by_nng' in G else v.lab.at
    mono(x, CNT, l1, 'count')
    r1 = x.call('iscc_assign_seeds_and_neighbors').ret
    x.lemma('total of seeds', And(r1 == CNT[v.N], r1 >= 0, r1 <= v.N), C9)
    for nm, f in Stage(c, ST, SRC, x.st.ghosts['PI']).facts(l1, 1):
        x.by(nm, f, None, C9, drop=('count',))
        x.st.pc[-1].n = 'stage 1 ' + nm
    s0 = v.sd.at(I(0))
    x.by('first seed', And(0 <= s0, s0 < v.N, v.OWN[s0] == 0, l1(s0) != NA(c)), None, C9, only=('seeds: seeds are vertices with neighbours', 'stage 1 who labelled'))
    x.by('some point is labelled', And(CNT[s0 + 1] == CNT[s0] + 1, CNT[s0 + 1] <= CNT[v.N], CNT[s0] >= CNT[0], CNT[v.N] >= 1), None, C9, only=('count grows', 'labelled points counted'))


def mono(x, CN, lab, nm):
    """the counts of labelled points, and of points without label, grow"""
    c = _ctx(x); v = c.v; a, b, y = ivars('a', 'b', 'y')
    x.induct(nm + ' grows', [a], b, a, v.N, lambda b: And(CN[a] <= CN[b], a - CN[a] <= b - CN[b]), [(CN[a], CN[b])], C9, guard=And(0 <= a, a <= v.N))
    x.lemma(nm + ' in range', And(0 <= CN[v.N], CN[v.N] <= v.N), C9)



def _mc_stage2(x):
    """after the assignment by the graph, if it was made"""
    c = _ctx(x); v = c.v; k = z3.Int('k'); G = x.st.ghosts
    if 'stage2' in G:
        return
    if 'ST' not in G:
        _mc_stage1(x)
    G = x.st.ghosts
    if '@iscc_assign_by_nng' in G:
        AP, CA = G['iscc_assign_by_nng.AP'], G['iscc_assign_by_nng.CA']
        ST, SRC = G['ST'], G['SRC']; S2, R2, C2 = const('ST', AI), const('SRC', AI), const('CN', AI)
        new = And(ST[k] == 0, AP[k] != -1)
        x.assume_def(forall([k], S2[k] == Ite(new, I(2), ST[k]), [S2[k]]), 'ghost')
        x.assume_def(forall([k], R2[k] == Ite(new, AP[k], SRC[k]), [R2[k]]), 'ghost')
        x.assume_def(forall([k], C2[k] == G['CN'][k] + CA[k], [C2[k]]), 'ghost')
        lab = v.lab.at
        lab1 = x.call('iscc_assign_by_nng').v.lab.o; na = NA(c); C1 = G['CN']
        x.by('count of each point', forall([k], Imp(And(0 <= k, k < v.N), And(C1[k + 1] == C1[k] + labelled(lab1, na, k), CA[k + 1] == CA[k] + Ite(And(lab1(k) == na, lab(k) != na), I(1), I(0)), Imp(lab1(k) != na, lab(k) == lab1(k)))), [lab(k)]), None, C9, only=('labelled points counted', 'newly labelled points counted', 'points get the label of their first labelled neighbour'))
        x.by('count after the graph', And(count_facts(lab, na, C2, v.N), C1[0] == 0, CA[0] == 0), None, C9, only=('ghost', 'count of each point'))
        x.setg('ST', S2); x.setg('SRC', R2); x.setg('CN', C2)
        mono(x, C2, lab, 'count by graph')
        r1, r2 = x.call('iscc_assign_seeds_and_neighbors').ret, x.call('iscc_assign_by_nng').ret
        x.lemma('total', And(r1 == C1[v.N], r2 == CA[v.N], C2[v.N] == r1 + r2, r1 + r2 <= v.N, r1 >= 0, r2 >= 0), C9)
        for nm, f in Stage(c, S2, R2, G['PI']).facts(lab, 2):
            x.by(nm, f, None, C9, drop=('count', 'loop0', 'inverse list')) if nm != 'who labelled' else x.by(nm, f, None, C9, only=('ghost', 'stage 1 who labelled', 'points get the label of their first labelled neighbour'))
            x.st.pc[-1].n = 'stage 2 ' + nm
        x.forget('stage 1 ')
    x.setg('stage2', T)


LISTED = ('all points without label are listed', 'points listed', 'stage 1 who labelled', 'stage 2 who labelled', 'stage 3 who labelled', 'inverse list', 'every point has a label')


def _mc_search(x, level):
    """after the primary (3) or secondary (4) search, if it was made"""
    c = _ctx(x); v = c.v; k, y, z = ivars('k', 'y', 'z'); G = x.st.ghosts
    if 'stage%d' % level in G:
        return
    C = G.get('@iscc_assign_by_nn_search')
    if C is G.get('used'):
        C = None
    ST, SRC = G['ST'], G['SRC']; m = v.um if level == 3 else v.sum
    if C is not None:
        NX, TI = G['iscc_assign_by_nn_search.NX'], G['iscc_assign_by_nn_search.TI']; si, n = C.v.hd.si, C.v.hd.n
        S2, R2 = const('ST', AI), const('SRC', AI)
        new = And(0 <= k, k < v.N, TI[k] != -1, NX[TI[k]] != -1)
        x.assume_def(forall([k], S2[k] == Ite(new, I(level), ST[k]), [S2[k]]), 'ghost')
        x.assume_def(forall([k], R2[k] == Ite(new, si(NX[TI[k]]), SRC[k]), [R2[k]]), 'ghost')
        sg = Stage(c, S2, R2, G['PI'])
        pos = (lambda y: Ite(m == v.K[UM[2]], G['CN1'][y], v.OWN[y])) if 'CN1' in G else (lambda y: v.OWN[y])
        x.lemma('targets are searched', forall([y], Imp(And(0 <= y, y < v.N, sg.target(m, y)), And(0 <= pos(y), pos(y) < n, si(pos(y)) == y)), [v.OWN[y]]), C9)
        x.lemma('searched points are targets', forall([z], Imp(And(0 <= z, z < n), And(0 <= si(z), si(z) < v.N, sg.target(m, si(z)))), [si(z)]), C9)
        who = sg.prim(k) if level == 3 else T
        x.by('points without label are searched for', forall([k], Imp(And(0 <= k, k < v.N, ST[k] == 0, who), TI[k] != -1), [ST[k]]), None, C9, only=LISTED + ('positions of the points',))
    else:
        S2, R2 = ST, SRC; sg = Stage(c, S2, R2, G['PI'])
        who = sg.prim(k) if level == 3 else T
        if x.eng.quick(x.st, Or(m == v.K[UM[2]], m == v.K[UM[3]])):
            x.by('no point to search for', forall([k], Imp(And(0 <= k, k < v.N, who), ST[k] != 0), [ST[k]]), None, C9, only=LISTED)
    for nm, f in sg.facts(v.lab.at, level):
        if C is not None and 'none in reach' in nm and nm.startswith(('primary', 'secondary')[level - 3]):
            x.by(nm, f, None, C9, only=('ghost', 'stage %d who labelled' % (level - 1), 'iscc_assign_by_nn_search: none in reach', 'iscc_assign_by_nn_search: positions of the points', 'targets are searched', 'points without label are searched for', 'stage %d %s' % (level, 'who labelled')))
        else:
            x.by(nm, f, None, C9, drop=('count',))
        x.st.pc[-1].n = 'stage %d %s' % (level, nm)
    x.forget('stage %d ' % (level - 1), 'stage %d ' % (level - 2))
    x.setg('ST', S2); x.setg('SRC', R2); x.setg('stage%d' % level, T)
    x.st.ghosts['used'] = C if C is not None else G.get('used')


def _mc_final(c):
    _mc_stage2(c)
    v = c.v; y = z3.Int('y'); CN = c.st.ghosts['CN']
    if 'TP' not in c.st.ghosts and c.eng.quick(c.st, CN[v.N] == v.N):
        c.by('every point has a label', forall([y], Imp(And(0 <= y, y < v.N), And(CN[y] <= y, CN[y + 1] == y + 1, CN[y + 1] == CN[y] + labelled(v.lab.at, NA(c), y), v.lab.at(y) != NA(c))), [v.lab.at(y)]), None, C9, only=('count grows', 'count by graph grows', 'labelled points counted', 'count after the graph'))
    for lv in (3, 4):
        _mc_search(c, lv)


def _mc0(L):
    c = L.c; v = c.v; x, r_ = ivars('x', 'r'); S = L.arr('seed_or_neighbor').at; CN = L.st.ghosts['CN']; i = L.v('i')
    w = L.off('write_seed_or_neighbor')
    return [('position', w == CN[i]),
            ('listed points have labels', forall([r_], Imp(And(0 <= r_, r_ < w), And(0 <= S(r_), S(r_) < i, v.lab.at(S(r_)) != NA(c))), [S(r_)])),
            ('labelled points are listed', forall([x], Imp(And(0 <= x, x < i, v.lab.at(x) != NA(c)), S(CN[x]) == x), [CN[x], v.lab.at(x)]))]


def _mc0_g0(L):
    L.setg('CN1', L.st.ghosts['CN'])


def _ta(L, i, what):
    """the points to assign among the first i"""
    c = L.c; v = c.v; x, a, b, r_, j = ivars('x', 'a', 'b', 'r', 'j'); TA = L.arr('to_assign').at; m = L.v('num_to_assign'); TP, TQ, CN = L.g('TP'), L.g('TQ'), L.st.ghosts['CN']; lab = v.lab.at; na = NA(c)
    f = (lambda j: v.pr.o(j)) if what else (lambda j: j)
    bound = m <= Ite(i == 0, I(0), f(i - 1) + 1 - CN[f(i - 1) + 1]) if what else m <= i - CN[i]
    return [('position', And(0 <= m, m <= i, bound)),
            ('points listed', forall([r_], Imp(And(0 <= r_, r_ < m), And(0 <= TQ[r_], TQ[r_] < i, f(TQ[r_]) == TA(r_), 0 <= TA(r_), TA(r_) < v.N, lab(TA(r_)) == na)), [TA(r_), TQ[r_]])),
            ('listed in order', forall([a, b], Imp(And(0 <= a, a < b, b < m), And(TQ[a] < TQ[b], TA(a) < TA(b))), [(TA(a), TA(b))])),
            ('all points without label are listed', forall([j], Imp(And(0 <= j, j < i, lab(f(j)) == na), And(0 <= TP[f(j)], TP[f(j)] < m, TA(TP[f(j)]) == f(j))), [TP[f(j)], lab(f(j))] + ([f(j)] if what else [])))]


def _ta_g0(L, stage):
    stage(L)
    L.setg('TP', const('TP', AI)); L.setg('TQ', const('TQ', AI))


def _ta_step(L, what):
    v = L.c.v; i = L.p('i'); m = L.p('num_to_assign')
    L.setg('TP', z3.Store(L.g('TP'), v.pr.o(i) if what else i, m))
    L.setg('TQ', z3.Store(L.g('TQ'), m, i))


def ta_loop(what, stage):
    return LS(lambda L: _ta(L, L.v('i'), what), ghosts=('TP', 'TQ'), ghost0=lambda L: _ta_g0(L, stage), step=lambda L: _ta_step(L, what))


r = reg('iscc_make_nng_clusters_from_seeds', _mc_pre, _mc_post,
        loops={0: LS(_mc0, ghost0=_mc0_g0), 1: ta_loop(True, _mc_stage2), 2: ta_loop(False, _mc_stage2), 3: ta_loop(False, lambda L: _mc_search(L, 3))},
        props=('C01', 'C02', 'C08', 'C09', 'C11', 'C12', 'C16'))
r.after = {'iscc_assign_seeds_and_neighbors': lambda c, o: _mc_stage1(c), 'iscc_assign_by_nng': lambda c, o: _mc_stage2(c) if o == 'ok' else None}
r.variants = [{'um': a, 'sum': b} for a in UM for b in UM if b != UM[1]]


# ---------------------------------------------------------------- the estimated radius
AR = z3.ArraySort(IS, RS)
AAR = z3.ArraySort(IS, AR)


def _es_pre(c):
    v = c.v; s = z3.Int('s')
    v.ds, v.N = ds_arg(c)
    v.sr = c.struct('seed_result'); v.cnt = v.sr('count')
    c.fact('number of seeds', And(v.cnt >= 1, v.cnt <= v.sr('capacity'), v.sr('capacity') <= (1 << 60)))
    v.sd = c.arr(v.sr.loc('seeds'), v.sr('capacity'))
    v.sv, v.t, v.h = dg_in(c, 'nng', heap=False)
    c.fact('graph over the points', v.sv('vertices') == v.N)
    v.k = c.a('size_constraint')
    c.fact('size constraint', v.k >= 2)
    c.fact('graph has arcs', Not(v.h.isnull))
    sd, t = v.sd.at, v.t.at
    c.fact('seeds have neighbours, no more than the size constraint', forall([s], Imp(And(0 <= s, s < v.cnt), And(0 <= sd(s), sd(s) < v.N, t(sd(s)) < t(sd(s) + 1), t(sd(s) + 1) - t(sd(s)) <= v.k)), [sd(s)]))
    v.out = c.struct('out_avg_seed_dist', mod=True)


SUMD = z3.Function('sum_dist', AI, IS, IS, IS, IS, z3.RealSort())     # heads, where the row starts, data set, point, k: sum of the distances from the point to the first k heads other than itself, in order
CNTD = z3.Function('count_dist', AI, IS, IS, IS, IS)                  # heads, where the row starts, point, k: how many of the first k heads are not the point
SAVG = z3.Function('sum_averages', AI, IS, AI, IS, AI, IS, IS, IS, IS, z3.RealSort())  # heads, tails, seeds, data set, step, j: sum of the average distances of the first j sampled seeds


class Est:
    """sampled seed j is seed j*STEP.  The three functions are defined by recursion on their last argument; the equations used are assumed one at a time (ground), which is conservative"""

    def __init__(s, c):
        v = c.v; s.c = c; s.H, s.ho = v.h.raw(), v.h.p.off; s.Tt, s.to = v.t.raw(), v.t.p.off; s.S, s.so = v.sd.raw(), v.sd.p.off; s.ds = v.ds

    def IN(s, u, i):
        return SUMD(s.H, add(s.ho, s.c.v.t.at(u)), s.ds, u, i)

    def NS(s, u, i):
        return CNTD(s.H, add(s.ho, s.c.v.t.at(u)), u, i)

    def SS(s, step, j):
        return SAVG(s.H, s.ho, s.Tt, s.to, s.S, s.so, s.ds, step, j)

    def estimate(s, step, J):
        return FDIV(s.SS(step, J), I2D(J))

    def unfold_row(s, u, i):
        v = s.c.v; b = v.h.at(v.t.at(u) + i)
        return And(Ite(b == u, And(s.IN(u, i + 1) == s.IN(u, i), s.NS(u, i + 1) == s.NS(u, i)), And(s.IN(u, i + 1) == FADD(s.IN(u, i), EDIST(v.ds, u, b)), s.NS(u, i + 1) == s.NS(u, i) + 1)))

    def unfold_sum(s, step, j):
        v = s.c.v; u = v.sd.at(mul(j, step)); m = v.t.at(u + 1) - v.t.at(u)
        return s.SS(step, j + 1) == FADD(s.SS(step, j), FDIV(s.IN(u, m), I2D(s.NS(u, m))))


def est_sample(cnt, STEP, J):
    return And(Ite(cnt > 1000, And(STEP * 1000 <= cnt, cnt < STEP * 1000 + 1000), STEP == 1), J >= 1, mul(J - 1, STEP) < cnt, mul(J, STEP) >= cnt)


def _es_post(c):
    v = c.v

    def ok():
        STEP, J = ghost(c, 'STEP', IS), ghost(c, 'J', IS)
        c.fact('sample', est_sample(v.cnt, STEP, J), C9)
        c.fact('average', v.out('') == Est(c).estimate(STEP, J), C9)
    return [('ok', c.ret == EC(c, 'OK'), ok), ('error no memory', And(c.ret == EC(c, 'NO_MEMORY'), oom(c)), None), ('error distances', c.ret == EC(c, 'DIST_SEARCH_ERROR'), None)]


def _es0(L):
    c = L.c; s = L.v('s'); J = L.v('sampled'); step = L.v('step')
    return [('position', And(0 <= J, J <= s, step >= 1, s == mul(J, step), Imp(J >= 1, mul(J - 1, step) < c.v.cnt), s < c.v.cnt + step)), ('sum', L.v('sum_dist') == Est(c).SS(step, J))]


def _es1(L):
    c = L.c; i = L.v('i'); E = Est(c); u = L.v('seed')
    return [('position', And(0 <= L.v('num_non_self_loops'), L.v('num_non_self_loops') <= i)), ('row', And(L.v('tmp_dist') == E.IN(u, i), L.v('num_non_self_loops') == E.NS(u, i)))]


def _es0_g0(L):
    L.setg('STEP', L.v('step'))
    L.assume_def(MUL(I(0), L.v('step')) == 0, 'product with zero')
    L.assume_def(Est(L.c).SS(L.v('step'), I(0)) == 0, 'definition of the sum of averages')


def _es1_g0(L):
    E = Est(L.c); u = L.v('seed')
    L.assume_def(And(E.IN(u, I(0)) == 0, E.NS(u, I(0)) == 0), 'definition of the sum of distances')


def _es0_head(L):
    nl(L, 'succ', L.v('sampled'), L.v('step'))
    L.assume_def(Est(L.c).unfold_sum(L.v('step'), L.v('sampled')), 'definition of the sum of averages')


def _es0_exit(L):
    L.setg('J', L.v('sampled'))


reg('iscc_estimate_avg_seed_dist', _es_pre, _es_post,
    loops={0: LS(_es0, ghost0=_es0_g0, head=_es0_head, exit=_es0_exit),
           1: LS(_es1, ghost0=_es1_g0, head=lambda L: L.assume_def(Est(L.c).unfold_row(L.v('seed'), L.v('i')), 'definition of the sum of distances'))}, props=('C09', 'C11', 'C12', 'C16'))


# ---------------------------------------------------------------- clusters from a graph
class Obj:
    pass


class View:
    """the objects a clustering is described by, whoever holds them"""

    def __init__(s, **k):
        s.__dict__.update(k)


def radii(c, o, est):
    """the radius constraints in force, as the options define them: (primary?, radius, secondary?, radius)"""
    K = c.const; sup, sed, es = K('SCC_RM_USE_SUPPLIED'), K('SCC_RM_USE_SEED_RADIUS'), K('SCC_RM_USE_ESTIMATED')
    r = []
    for w in ('primary', 'secondary'):
        m = o(w + '_radius'); ign = o(w + '_unassigned_method') == K('SCC_UM_IGNORE')
        r += [And(Not(ign), Or(m == sup, m == es, And(m == sed, o('seed_radius') == sup))),
              Ite(m == es, est, Ite(m == sed, o('seed_supplied_radius'), o(w + '_supplied_radius')))]
    return r


def uses_estimate(c, o):
    K = c.const
    return Or(*[And(o(w + '_unassigned_method') != K('SCC_UM_IGNORE'), o(w + '_radius') == K('SCC_RM_USE_ESTIMATED')) for w in ('primary', 'secondary')])


def nng_suffices(c, o, rad):
    """the graph holds the closest assigned points: only distances up to the seed radius matter"""
    return And(o('num_types') < 2, Or(Not(rad[0]), And(o('seed_radius') == c.const('SCC_RM_USE_SUPPLIED'), o('seed_supplied_radius') <= rad[1])))


CLW = (('SD', AI), ('OWN', AI), ('OWP', AI), ('BLK', AI), ('ST', AI), ('SRC', AI), ('PI', AI), ('EST', RS), ('STEP', IS), ('J', IS))


def clustering_facts(c, v, W, t, h, lab, o):
    """the clustering is the one the seeds and the options determine.  t, h: graph; W: witnesses"""
    N = v.N; x = z3.Int('x'); cnt = v.cl('num_clusters'); SD = lambda s: W['SD'][s]
    r = [('at least one cluster', And(cnt >= 1, cnt <= c.const('SCC_CLABEL_MAX')), ('C01', 'C08'))]
    for nm, f in seed_facts(N, t, h, SD, cnt, W['OWN'], W['OWP']):
        r.append(('seeds: ' + nm, f, ('C01', 'C06', 'C08')))
    r.append(('no vertex could be added', forall([x], Imp(And(0 <= x, x < N), maximal(x, t, h, W['OWN'], W['BLK'])), [t(x)]), ('C06', 'C08')))
    rad = radii(c, o, W['EST'])
    E = View(K={k: c.const(k) for k in UM}, um=o('primary_unassigned_method'), sum=o('secondary_unassigned_method'), N=N, OWN=W['OWN'], ds=v.ds, T=(t, h), SD=SD, pr=v.pr, np=v.np)
    r.append(('primary points by number', pi_facts(View(v=E), W['PI']), C9))
    for nm, f in Stage(c, W['ST'], W['SRC'], W['PI'], v=E, ordered=nng_suffices(c, o, rad), rad=rad).facts(lab, 4):
        r.append((nm, f, ('C09', 'C01', 'C08')))
    return r


def estimate_is(c, v, W, cnt, o):
    """the estimated radius, when used, is the average over the sampled seeds of their average distances to their neighbours"""
    G = v.graph
    return Imp(uses_estimate(c, o), And(est_sample(cnt, W['STEP'], W['J']), W['EST'] == FDIV(SAVG(G[0], G[1], G[2], G[3], W['SD'], I(0), v.ds, W['STEP'], W['J']), I2D(W['J'])), W['EST'] > 0))


def _cn_pre(c):
    v = c.v; i = z3.Int('i')
    v.cl = c.struct('clustering', mod=('num_clusters', 'external_labels', 'cluster_label'))
    v.N = v.cl('num_data_points')
    v.lab = c.arr(v.cl.loc('cluster_label'), v.N, null='maybe', mod=True)
    c.fact('number of points', And(v.N >= 2, v.N <= c.const('ISCC_POINTINDEX_MAX'), v.cl('num_clusters') == 0, v.cl('clustering_version') == c.const('ISCC_CLUSTERING_STRUCT_VERSION')))
    if c.producing() and c.variant:
        c.st.assume(v.lab.isnull == c.variant['new labels'], 'variant')
    v.ds, n = ds_arg(c)
    c.fact('points of the data set', n == v.N)
    graph_arg(c, True)
    t, h = v.t.at, v.h.at
    c.fact('graph has arcs', t(v.N) > 0)
    c.fact('no arc twice', no_repeats(t, h, v.N))
    v.graph = (v.h.raw(), v.h.p.off, v.t.raw(), v.t.p.off)
    v.o = options_arg(c); v.k = v.o('size_constraint')
    opt_ok(c, v.o, v.N)
    c.fact('not batches', v.o('seed_method') != c.const('SCC_SM_BATCHES'))
    v.pr, v.np = v.o.pd, v.o('len_primary_data_points')
    primary_in_range(c, v.pr, v.np, v.N)
    c.fact('no more arcs from a point than the size constraint', forall([i], Imp(And(0 <= i, i < v.N), t(i + 1) - t(i) <= v.k), [t(i + 1)]))


def primary_in_range(c, pr, np_, N):
    i, j = ivars('i', 'j')
    c.fact('primary points', Or(pr.isnull, And(1 <= np_, np_ <= N)))
    c.fact('primary points: data points', forall([i], Imp(And(Not(pr.isnull), 0 <= i, i < np_), And(pr.at(i) >= 0, pr.at(i) < N)), [pr.at(i)]))


def _cn_post(c):
    v = c.v
    same = ('vertices', 'max_arcs', 'tail_ptr', 'head')

    def keep():
        for f in same:
            c.same(v.sv.loc(f))

    def free():
        c.freed(v.t); c.freed(v.h); c.null(v.sv.loc('tail_ptr')); c.null(v.sv.loc('head'))
        c.fact('null digraph', And(v.sv('vertices') == 0, v.sv('max_arcs') == 0))

    def samelab():
        v.lab2 = v.lab; c.same(v.cl.loc('cluster_label')); c.fact('ownership of labels', Or(v.lab.isnull, v.cl('external_labels') == v.cl.o('external_labels')), ('C12', 'C13'))

    def newlab():
        c.fact('labels were absent', v.lab.isnull, ('C12', 'C13'))
        v.lab2 = c.fresh(v.cl.loc('cluster_label'), v.N)
        c.fact('labels belong to the clustering', Not(v.cl('external_labels')), ('C12', 'C13'))

    def ok():
        W = {}
        if not c.producing():
            _cn_final(c)
        for n, s in CLW:
            W[n] = ghost(c, n, s)
        v.W = W
        lab = v.lab2.at
        for nm, f, tags in clustering_facts(c, v, W, v.t.o, v.h.o, lab, v.o):
            c.fact(nm, f, tags)
        c.fact('estimated radius', estimate_is(c, v, W, v.cl('num_clusters'), v.o), ('C09',))
    isnew = lambda: And(v.lab.isnull, Not(c.eng.isnull(v.cl._rd(c.st, 'cluster_label'))))
    r = []
    for nm, code, g, body in (('ok', 'OK', T, ok), ('error no memory', 'NO_MEMORY', oom(c), None), ('error search', 'DIST_SEARCH_ERROR', T, None), ('error too many', 'TOO_LARGE_PROBLEM', T, None), ('error no solution', 'NO_SOLUTION', uses_estimate(c, v.o), None)):
        for kn, kg, kb in (('graph kept', lambda: v.sv('vertices') == v.N, keep), ('graph released', lambda: v.sv('vertices') == 0, free)):
            for ln, lg, lb in (('labels kept', lambda: Not(isnew()), samelab), ('labels made', isnew, newlab)):
                if code in ('TOO_LARGE_PROBLEM', 'NO_SOLUTION') and (kb is free or lb is newlab):
                    continue

                def full(kb=kb, lb=lb, body=body):
                    kb(); lb()
                    if body:
                        body()
                    else:
                        c.fact('no clusters on error', v.cl('num_clusters') == 0, ('C10', 'C11'))
                lg_ = (lambda: Not(v.lab.isnull)) if body and lb is samelab else lg
                r.append(('%s, %s, %s' % (nm, kn, ln), (lambda code=code, g=g, kg=kg, lg=lg_: And(c.ret == EC(c, code), g, kg(), lg())), full))
    return r


def _cn_seeds(c, o):
    """after the seeds were found"""
    if o != 'ok':
        return
    v = c.v; G = c.st.ghosts; x = z3.Int('x')
    C = c.call('iscc_find_seeds'); cnt = C.v.out._rd(c.st, 'count')
    sd = C.v.out._rd(c.st, 'seeds')
    for n in ('OWN', 'OWP', 'BLK'):
        c.setg(n, G['iscc_find_seeds.' + n])
    c.setg('SD', AV_(c, sd, dict(C.v.out.t.fields)['seeds'].to).raw())
    RO = rows_exist(c.st, v.t.at, v.N); y = RO[I(0)]; OWN, BLK = G['iscc_find_seeds.OWN'], G['iscc_find_seeds.BLK']
    c.by('the first arc belongs to a vertex', And(0 <= y, y < v.N, v.t.at(y) < v.t.at(y + 1)), None, C9, only=('row of an arc',))
    c.by('that vertex could not be added', maximal(y, v.t.at, v.h.at, OWN, BLK), None, C9, only=('no vertex could be added',))
    b = v.h.at(BLK[y])
    c.by('some vertex is owned', Or(OWN[y] != -1, And(0 <= b, b < v.N, OWN[b] != -1)), None, C9)
    c.by('at least one seed', cnt >= 1, None, C9, only=('owners are seeds',))


def _cn_est(c, o):
    if o == 'ok':
        C = c.call('iscc_estimate_avg_seed_dist'); G = c.st.ghosts
        c.setg('EST', C.v.out._rd(c.st, '')); c.setg('STEP', G['iscc_estimate_avg_seed_dist.STEP']); c.setg('J', G['iscc_estimate_avg_seed_dist.J'])


def _cn_final(c):
    G = c.st.ghosts
    for n in ('ST', 'SRC', 'PI'):
        c.setg(n, G['iscc_make_nng_clusters_from_seeds.' + n])
    for n, s in CLW:
        if n not in c.st.ghosts:
            c.setg(n, const(n, s))


r = reg('iscc_make_clustering_from_nng', _cn_pre, _cn_post, props=('C01', 'C06', 'C08', 'C09', 'C10', 'C11', 'C12', 'C16'))
r.after = {'iscc_find_seeds': _cn_seeds, 'iscc_estimate_avg_seed_dist': _cn_est}
r.variants = [{'new labels': T}, {'new labels': F}]


# ---------------------------------------------------------------- the main entry point
from .batch import BF, BW, CB, label_cases
from .nng import isq, nng_rows, search_facts, SGW, type_rows, TGW


def _sc_pre(c):
    v = c.v; i = z3.Int('i')
    v.cl, v.lab = clustering_arg(c, 'out_clustering', mod=('num_clusters', 'external_labels', 'cluster_label'), mod_labels=True)
    v.p, v.nc = c.opaque('data_set', null='maybe'); v.ds = ds_id(v.p) if not (isinstance(v.p.obj, int) and v.p.obj == 0) else I(0)
    v.o = options_arg(c); v.pr, v.np = v.o.pd, v.o('len_primary_data_points'); v.N = v.cl('num_data_points'); v.na = NA(c); v.k = v.o('size_constraint')
    if c.producing():
        c.st.assume(v.pr.isnull == c.variant['pn'], 'variant')
    c.fact('length of the primary list', v.np <= (1 << 60))
    c.fact('primary points: data points', forall([i], Imp(And(Not(v.pr.isnull), 0 <= i, i < v.np), And(v.pr.at(i) >= 0, v.pr.at(i) < v.N)), [v.pr.at(i)]))
    c.fact('type labels', forall([i], Imp(And(Not(v.o.tl.isnull), 0 <= i, i < v.o('len_type_labels')), And(0 <= v.o.tl.at(i), v.o.tl.at(i) < v.o('num_types'))), [v.o.tl.at(i)]))


def members(k, N, lab, nl, MEM, IDX):
    """every cluster has at least k points"""
    c, j = ivars('c', 'j')
    return [('every cluster holds at least as many points as the size constraint', forall([c, j], Imp(And(0 <= c, c < nl, 0 <= j, j < k), And(0 <= MEM[c][j], MEM[c][j] < N, lab(MEM[c][j]) == c, IDX[MEM[c][j]] == j)), [MEM[c][j]]))]


def labels_in_range(c, N, lab, nl):
    x = z3.Int('x')
    return [('labels are cluster numbers or none', forall([x], Imp(And(0 <= x, x < N), Or(lab(x) == NA(c), And(0 <= lab(x), lab(x) < nl))), [lab(x)]))]


class SubO:
    """the option-driven search as the graph functions see it"""

    def __init__(s, c):
        v = c.v; s.c = c; s.args = None
        s.v = View(n=v.N, k=v.k, N=v.N, si=lambda i: i, hd=View(ds=v.ds), qn=bool(c.variant['pn']), pn=bool(c.variant['pn']), nq=v.N if c.variant['pn'] else v.np, qi=(lambda i: i) if c.variant['pn'] else (lambda i: v.pr.o(i)))

    def a(s, n):
        return {'radius_constraint': s.c.v.o('seed_radius') == s.c.const('SCC_RM_USE_SUPPLIED'), 'radius': s.c.v.o('seed_supplied_radius')}[n]


def sc_rules(c):
    v = c.v; N = v.cl.o('num_data_points')
    r = [('INVALID_INPUT', Not(cl_valid(c, v.cl, v.lab))), ('INVALID_INPUT', Or(v.nc, Not(DSOK(v.ds)), NPTS(v.ds) != N))]
    names = {num(EC(c, k)): k for k in ('INVALID_INPUT', 'NO_SOLUTION', 'TOO_LARGE_PROBLEM', 'NOT_IMPLEMENTED')}
    for nm, (code, bad) in opt_rules(c, v.o, N).items():
        if nm == 'primary list sorted':
            i, j = ivars('i', 'j'); bad = Not(Or(v.pr.isnull, forall([i, j], Imp(And(0 <= i, i < j, j < v.np), v.pr.o(i) < v.pr.o(j)), [(v.pr.o(i), v.pr.o(j))])))
        r.append((names[num(code)], bad))
    um = v.o('primary_unassigned_method'); K = c.const
    r.append(('INVALID_INPUT', And(v.o('seed_method') == K('SCC_SM_BATCHES'), um != K('SCC_UM_IGNORE'), um != K('SCC_UM_ANY_NEIGHBOR'))))
    r.append(('NOT_IMPLEMENTED', v.cl.o('num_clusters') != 0))
    return r


def _sc_post(c):
    v = c.v; K = c.const
    rules = sc_rules(c)
    bat = v.o('seed_method') == K('SCC_SM_BATCHES'); typ = v.o('num_types') >= 2
    C1 = ('C01',)

    def common(MEM, IDX, lab, nl):
        for nm, f in labels_in_range(c, v.N, lab, nl) + members(v.k, v.N, lab, nl, MEM, IDX):
            c.fact(nm, f, C1)

    def batches():
        if not c.producing():
            c.adopt('scc_nng_clustering_batches', [n for n, _ in BW] + ['PI'])
        W = {n: ghost(c, n, s) for n, s in BW}; PI = ghost(c, 'PI', AI); lab = v.lab2.at; nl = v.cl('num_clusters'); v.prim = lambda x: Or(v.pr.isnull, PI[x] != -1)
        c.fact('at least one cluster', And(nl >= 1, nl <= K('SCC_CLABEL_MAX')), CB)
        b = BF(W, v, v.k, v.o('seed_radius') == K('SCC_RM_USE_SUPPLIED'), RAD(v.o('seed_supplied_radius')), v.o('primary_unassigned_method') == K('SCC_UM_IGNORE'))
        for nm, g in b.clusters(lab, nl) + b.left(lab, v.N) + b.searched(v.N) + b.blocked(v.N):
            c.fact(nm, g, CB + ('C06',))
        common(W['MEM'], W['IDX'], lab, nl)

    def seeds(extra):
        if not c.producing():
            c.adopt('iscc_make_clustering_from_nng', [n for n, _ in CLW])
        W = {n: ghost(c, n, s) for n, s in CLW}
        TT, HH = ghost(c, 'TT', AI), ghost(c, 'HH', AI); t, h = (lambda i: TT[i]), (lambda i: HH[i]); lab = v.lab2.at; nl = v.cl('num_clusters')
        if not c.producing():
            v.graph = (HH, I(0), TT, I(0))
        for nm, f, tags in clustering_facts(c, v, W, t, h, lab, v.o):
            c.fact(nm, f, tags)
        v.graph = (HH, I(0), TT, I(0))
        c.fact('estimated radius', estimate_is(c, v, W, nl, v.o), ('C09',))
        extra(W, t, h, lab, nl)

    def plain(W, t, h, lab, nl):
        if not c.producing():
            c.adopt('iscc_get_nng_with_size_constraint', [n for n, _ in SGW] + ['SL'])
        G = [ghost(c, n, s) for n, s in SGW]; SL = ghost(c, 'SL', AI); S = SubO(c)
        if not c.producing():
            _sc_plain(c, W, t, h, lab, nl, G, SL, S)
        for nm, f in nng_rows(S, t, h, G, SL) + search_facts(S, G):
            c.fact(nm, f, ('C08',))
        MEM, IDX = ghost(c, 'MEM', AAI), ghost(c, 'IDX', AI)
        common(MEM, IDX, lab, nl)
        x, y = ivars('x', 'y'); z = h(W['SRC'][x]); D = lambda a, b: DIST(v.ds, a, b)
        rad = radii(c, v.o, W['EST'])
        c.fact('the first labelled neighbour is a nearest labelled point', forall([x, y], Imp(And(v.o('primary_unassigned_method') == K(UM[2]), 0 <= x, x < v.N, W['ST'][x] == 2, 0 <= y, y < v.N, W['OWN'][y] != -1), And(D(x, z) <= D(x, y), Imp(rad[0], D(x, z) <= RAD(rad[1])))), [(W['ST'][x], W['OWN'][y])]), ('C09',))

    def types(W, t, h, lab, nl):
        if not c.producing():
            c.adopt('iscc_get_nng_with_type_constraint', [n for n, _ in TGW] + ['PQ'])
        TW = {n: ghost(c, n, s) for n, s in TGW}; PQ = ghost(c, 'PQ', AI)
        tl, tc, nt = v.o.tl.o, v.o.tc.o, v.o('num_types')
        if not c.producing():
            _sc_types(c, W, t, h, lab, nl, TW)
        MEM, IDX = ghost(c, 'MEM', AAI), ghost(c, 'IDX', AI); TM, TI = ghost(c, 'TMEM', TGW[3][1]), ghost(c, 'TIDX', AI)
        common(MEM, IDX, lab, nl)
        a, T_, j = ivars('a', 'T', 'j'); z = TM[a][T_][j]
        c.fact('every cluster holds as many points of each type as its constraint', forall([a, T_, j], Imp(And(0 <= a, a < nl, 0 <= T_, T_ < nt, 0 <= j, j < tc(T_)), And(0 <= z, z < v.N, lab(z) == a, tl(z) == T_, TI[z] == j)), [TM[a][T_][j]]), ('C02',))

    zero = lambda: c.fact('no clusters on error', v.cl('num_clusters') == 0, ('C10', 'C11'))

    def same():
        if not is_true(v.cl.isnull):
            c.fact('clustering untouched', Or(v.cl.isnull, And(*[v.cl(f) == v.cl.o(f) for f in ('num_clusters', 'external_labels')])), ('C10', 'C11', 'C12'))
        c.same(v.cl.loc('cluster_label'))
    bad = lambda code=None: Or(*[f for k, f in rules if code in (None, k)])
    r = []
    rej = lambda: c.has_rejected if hasattr(c, 'has_rejected') else bad()
    for code in ('INVALID_INPUT', 'NO_SOLUTION', 'TOO_LARGE_PROBLEM', 'NOT_IMPLEMENTED'):
        r.append(('rejected: ' + code, (lambda code=code: And(c.ret == EC(c, code), bad())), lambda code=code: (same(), c.fact('a rule with the returned code is violated', bad(code), ('C10',)))))
    rest = [('ok, batches', 'OK', bat, batches), ('ok, by size', 'OK', And(Not(bat), Not(typ)), lambda: seeds(plain)), ('ok, by types', 'OK', And(Not(bat), typ), lambda: seeds(types)),
            ('error no memory', 'NO_MEMORY', oom(c), zero), ('error search', 'DIST_SEARCH_ERROR', T, zero), ('error too many', 'TOO_LARGE_PROBLEM', T, zero), ('error no solution', 'NO_SOLUTION', T, zero), ('error types', 'INVALID_INPUT', typ, zero)]
    for nm, code, g, body in rest:
        for ln, lg, lb in label_cases(c):
            r.append(('%s, %s' % (nm, ln), (lambda code=code, g=g, lg=lg: And(c.ret == EC(c, code), g, lg(), Not(bad()))), (lambda lb=lb, body=body: (lb(), body()))))
    return r


def _sc_plain(c, W, t, h, lab, nl, G, SL, S):
    v = c.v; k = v.k; N = v.N; PV, QV, FV, QI = G; OWN, OWP, SD, ST, SRC = (W[n] for n in ('OWN', 'OWP', 'SD', 'ST', 'SRC')); a, j, x, y, p = ivars('a', 'j', 'x', 'y', 'p')
    MEM, IDX = const('MEM', AAI), const('IDX', AI)
    c.assume_def(forall([a, j], MEM[a][j] == Ite(j == 0, SD[a], h(t(SD[a]) + j - 1)), [MEM[a][j]]), 'ghost')
    c.assume_def(forall([x], IDX[x] == Ite(OWP[x] == -1, I(0), OWP[x] - t(SD[OWN[x]]) + 1), [IDX[x]]), 'ghost')
    c.setg('MEM', MEM); c.setg('IDX', IDX)
    f = 'iscc_make_clustering_from_nng: '; g = 'iscc_get_nng_with_size_constraint: '
    sd = [f + 'seeds: ' + n for n in ('seeds are vertices with neighbours', 'neighbourhoods of seeds are disjoint', 'owners are seeds', 'owned vertices are the seed itself', 'or in its neighbourhood')]
    rows = [g + n for n in ('rows of queries with enough points in reach, and only those', 'no arc to itself', 'no arc twice')]
    c.by('rows of seeds', forall([a], Imp(And(0 <= a, a < nl), And(0 <= SD[a], SD[a] < N, t(SD[a] + 1) == t(SD[a]) + k - 1, OWN[SD[a]] == a, 0 <= t(SD[a]))), [SD[a]]), None, C9, only=(sd[0], rows[0], g + 'result: start', g + 'result: ordered'))
    c.by('arcs of seeds', forall([a, p], Imp(And(0 <= a, a < nl, t(SD[a]) <= p, p < t(SD[a] + 1)), And(OWN[h(p)] == a, h(p) != SD[a], 0 <= h(p), h(p) < N, OWP[h(p)] == p)), [(SD[a], h(p))]), None, C9)
    c.by('seeds own themselves', forall([a], Imp(And(0 <= a, a < nl), OWP[SD[a]] == -1), [SD[a]]), None, C9)
    c.by('labels of owned points', forall([x], Imp(And(0 <= x, x < N, OWN[x] != -1), lab(x) == OWN[x]), [OWN[x]]), None, C9, only=(f + 'who labelled',))
    # a point labelled through the graph: its first labelled neighbour is a nearest labelled point
    K = c.const; Z = Ite(SRC[x] - t(x) >= SL[x], SRC[x] - t(x) + 1, SRC[x] - t(x)); D = lambda a, b: DIST(v.ds, a, b)
    st2 = And(0 <= x, x < N, ST[x] == 2); closest = v.o('primary_unassigned_method') == K(UM[2])
    c.by('row of a point labelled through the graph', forall([x], Imp(st2, And(t(x) <= SRC[x], SRC[x] < t(x + 1), t(x + 1) == t(x) + k - 1, FV[x] == k, isq(S, QI, x), OWN[x] == -1, OWN[h(SRC[x])] != -1)), [ST[x]]), None, C9, only=(f + 'who labelled', f + 'labels through the graph', rows[0]))
    c.by('its place', forall([x], Imp(st2, And(SL[x] == Ite(QV[x][x] == -1, k - 1, QV[x][x]), 0 <= SL[x], SL[x] < k)), [ST[x]]), None, C9, only=('row of a point labelled through the graph', g + 'place of the point itself'))
    c.by('its neighbour in the listing', forall([x], Imp(st2, And(0 <= Z, Z < k, h(SRC[x]) == PV[x][Z])), [ST[x]]), None, C9, only=('row of a point labelled through the graph', g + 'arcs lead to the nearest other points'))
    lisy = And(0 <= y, y < N, OWN[y] != -1, closest)
    c.by('the graph holds enough', Imp(closest, forall([x], Imp(st2, nng_suffices(c, v.o, radii(c, v.o, W['EST']))), [ST[x]])), None, C9, only=(f + 'labels through the graph',))
    c.by('listed labelled points come no earlier', forall([x, y], Imp(And(st2, lisy, QV[x][y] != -1), And(Z <= QV[x][y], QV[x][y] < k, PV[x][QV[x][y]] == y)), [(ST[x], OWN[y])]), None, C9)
    c.by('listed points are ordered', forall([x, y], Imp(And(st2, lisy, QV[x][y] != -1), D(x, PV[x][Z]) <= D(x, y)), [(ST[x], OWN[y])]), None, C9, only=('row of a point labelled through the graph', 'listed labelled points come no earlier', 'its neighbour in the listing', g + 'ordered by distance'))
    c.by('the neighbour is within the seed radius, and no further than the last listed', forall([x], Imp(st2, And(D(x, PV[x][Z]) <= D(x, PV[x][k - 1]), Imp(S.a('radius_constraint'), D(x, PV[x][Z]) <= RAD(S.a('radius'))))), [ST[x]]), None, C9, only=('row of a point labelled through the graph', 'its neighbour in the listing', g + 'ordered by distance', g + 'listed points'))
    c.by('points not listed are no nearer', forall([x, y], Imp(And(st2, lisy, QV[x][y] == -1), D(x, PV[x][Z]) <= D(x, y)), [(ST[x], OWN[y])]), None, C9, only=('row of a point labelled through the graph', 'the neighbour is within the seed radius, and no further than the last listed', g + 'points left out are not closer'))
    rad = radii(c, v.o, W['EST'])
    c.assume_def(Imp(And(0 < S.a('radius'), S.a('radius') <= rad[1]), RAD(S.a('radius')) <= RAD(rad[1])), 'radius thresholds are ordered')
    c.by('radius in force', forall([x], Imp(And(st2, closest, rad[0]), And(D(x, h(SRC[x])) <= RAD(rad[1]))), [ST[x]]), None, C9, only=('row of a point labelled through the graph', 'the neighbour is within the seed radius, and no further than the last listed', 'its neighbour in the listing', 'the graph holds enough'))
    c.by('the first labelled neighbour is a nearest', forall([x, y], Imp(And(st2, lisy), D(x, h(SRC[x])) <= D(x, y)), [(ST[x], OWN[y])]), None, C9, only=('points not listed are no nearer', 'listed points are ordered', 'its neighbour in the listing'))


def _sc_types(c, W, t, h, lab, nl, TW):
    v = c.v; k = v.k; N = v.N; CM, CI, CP, TM, TI = (TW[n] for n, _ in TGW); OWN, SD = W['OWN'], W['SD']; a, j, x, T_ = ivars('a', 'j', 'x', 'T')
    MEM, IDX, TMEM, TIDX = const('MEM', AAI), const('IDX', AI), const('TMEM', TGW[3][1]), const('TIDX', AI)
    c.assume_def(forall([a], MEM[a] == CM[SD[a]], [MEM[a]]), 'ghost'); c.assume_def(forall([x], IDX[x] == CI[SD[OWN[x]]][x], [IDX[x]]), 'ghost')
    c.assume_def(forall([a], TMEM[a] == TM[SD[a]], [TMEM[a]]), 'ghost'); c.assume_def(forall([x], TIDX[x] == TI[SD[OWN[x]]][x], [TIDX[x]]), 'ghost')
    for n, g in (('MEM', MEM), ('IDX', IDX), ('TMEM', TMEM), ('TIDX', TIDX)):
        c.setg(n, g)
    c.by('labels of owned points', forall([x], Imp(And(0 <= x, x < N, OWN[x] != -1), lab(x) == OWN[x]), [OWN[x]]), None, C9, only=('iscc_make_clustering_from_nng: who labelled',))


def _sc_graph(c, o):
    if o == 'ok':
        for n in ('iscc_get_nng_with_size_constraint', 'iscc_get_nng_with_type_constraint'):
            if '@' + n in c.st.ghosts:
                C = c.call(n); out = C.v.out; fl = dict(out.t.fields)
                for nm, f in (('TT', 'tail_ptr'), ('HH', 'head')):
                    c.setg(nm, AV_(c, out._rd(c.st, f), fl[f].to).raw())


def _sc_opts(c, o):
    """a sorted list of data points is no longer than there are data points"""
    v = c.v
    if o != 'ok' or c.variant['pn']:
        return
    j = z3.Int('j')
    c.induct('primary points are no less than their position', [], j, I(0), v.np - 1, lambda j: v.pr.at(j) >= j, [v.pr.at(j)], ('C10',))
    c.lemma('number of primary points', And(v.np >= 1, v.pr.at(v.np - 1) >= v.np - 1, v.pr.at(v.np - 1) < v.N, v.np <= v.N), ('C10',))


r = reg('scc_sc_clustering', _sc_pre, _sc_post, props=('C01', 'C02', 'C06', 'C08', 'C09', 'C10', 'C11', 'C12', 'C16'))
r.after = {'iscc_check_cluster_options': _sc_opts, 'iscc_get_nng_with_size_constraint': _sc_graph, 'iscc_get_nng_with_type_constraint': _sc_graph}
r.variants = [{'pn': True}, {'pn': False}]
