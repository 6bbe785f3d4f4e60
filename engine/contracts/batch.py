"""nng_batch_clustering.c: clusters found batch by batch (C01, C06, C08, C09)"""
from .base import *
from .spi import *
from .findseeds import const, ghost
from .nng import inverse_exists
from .core import cl_valid, clustering_arg
CB = ('C01', 'C08', 'C09')
LS = LoopSpec
BW = (('MEM', AAI), ('IDX', AI), ('SEED', AI), ('PRE', AI), ('BLK', AI), ('PV', AAI), ('QV', AAI), ('FV', AI))


class BF:
    """MEM[c][j]: j-th member of cluster c; IDX[x]: number of x among the members of its cluster, -1 for points that are not members; SEED[c]: the point cluster c was made for;
    PRE[x]: the member a left-over point was put with; BLK[x]: number, among the points nearest to x, of one that belonged to a cluster when x was considered;
    PV[x], QV[x], FV[x]: the points nearest to x as searched, their numbers (-1: not listed), how many are within reach"""

    def __init__(s, W, v, k, rad, R, ignore):
        s.W = W; s.v = v; s.N = v.N; s.k = k; s.rad = rad; s.R = R; s.ign = ignore
        s.D = lambda a, b: DIST(v.ds, a, b)

    def clusters(s, lab, nl, tags=CB, part=None):
        """part: (row, j): the first j points of the row already belong to cluster nl"""
        MEM, IDX, SEED = s.W['MEM'], s.W['IDX'], s.W['SEED']; N, k = s.N, s.k
        c, j, x, y = ivars('c', 'j', 'x', 'y'); inc = And(0 <= c, c < nl); inj = And(0 <= j, j < k)
        old = And(0 <= lab(x), lab(x) < nl, IDX[x] < k, MEM[lab(x)][IDX[x]] == x)
        if part:
            old = Or(old, And(lab(x) == nl, IDX[x] < part[1], part[0][IDX[x]] == x))
        return [('members of clusters', forall([c, j], Imp(And(inc, inj), And(0 <= MEM[c][j], MEM[c][j] < N, lab(MEM[c][j]) == c, IDX[MEM[c][j]] == j)), [MEM[c][j]])),
                ('members are counted', forall([x], Imp(And(0 <= x, x < N, IDX[x] != -1), And(0 <= IDX[x], old)), [IDX[x]])),
                ('seeds', forall([c], Imp(inc, And(0 <= SEED[c], SEED[c] < N, lab(SEED[c]) == c, IDX[SEED[c]] != -1, s.v.prim(SEED[c]))), [SEED[c]])),
                ('members are in reach', forall([c, j], Imp(And(inc, inj, MEM[c][j] != SEED[c], s.rad), s.D(SEED[c], MEM[c][j]) <= s.R), [MEM[c][j]])),
                ('members are the nearest', forall([c, j, y], Imp(And(inc, inj, MEM[c][j] != SEED[c], 0 <= y, y < N, Not(And(lab(y) == c, IDX[y] != -1))), s.D(SEED[c], MEM[c][j]) <= s.D(SEED[c], y)), [(MEM[c][j], IDX[y])]))]

    def left(s, lab, hi, lo=None, name='points left over'):
        """points below hi that are not members (and not in lo..)"""
        IDX, PRE = s.W['IDX'], s.W['PRE']; N, na = s.N, s.v.na; x = z3.Int('x'); z = PRE[x]
        return [(name, forall([x], Imp(And(0 <= x, x < hi, IDX[x] == -1), Or(lab(x) == na, And(Not(s.ign), s.v.prim(x), 0 <= z, z < N, IDX[z] != -1, lab(z) == lab(x), Imp(s.rad, s.D(x, z) <= s.R)))), [lab(x)]))]

    def searched(s, hi):
        PV, QV, FV = (s.W[n] for n in ('PV', 'QV', 'FV')); N, k = s.N, s.k; IDX = s.W['IDX']
        x, i, j, y = ivars('x', 'i', 'j', 'y'); q = And(0 <= x, x < hi, s.v.prim(x), IDX[x] == -1)
        P = lambda x, j: PV[x][j]
        return [('search: numbers listed', forall([x], Imp(q, And(0 <= FV[x], FV[x] <= k, Imp(Not(s.rad), FV[x] == k))), [FV[x]])),
                ('search: listed points', forall([x, j], Imp(And(q, 0 <= j, j < FV[x]), And(0 <= P(x, j), P(x, j) < N, QV[x][P(x, j)] == j, Imp(s.rad, s.D(x, P(x, j)) <= s.R))), [P(x, j)])),
                ('search: ordered by distance', forall([x, i, j], Imp(And(q, 0 <= i, i <= j, j < FV[x]), s.D(x, P(x, i)) <= s.D(x, P(x, j))), [(P(x, i), P(x, j))])),
                ('search: points left out are not closer', forall([x, y], Imp(And(q, 0 <= y, y < N), Ite(QV[x][y] == -1, Or(And(s.rad, s.D(x, y) > s.R), And(FV[x] == k, s.D(x, y) >= s.D(x, P(x, k - 1)))), And(0 <= QV[x][y], QV[x][y] < FV[x], P(x, QV[x][y]) == y))), [QV[x][y]]))]

    def blocked(s, hi, also=None):
        PV, FV, BLK, IDX = (s.W[n] for n in ('PV', 'FV', 'BLK', 'IDX')); x = z3.Int('x'); b = PV[x][BLK[x]]
        f = Or(FV[x] < s.k, And(0 <= BLK[x], BLK[x] < s.k, 0 <= b, b < s.N, IDX[b] != -1))
        return [('primary points left over could not be seeds', forall([x], Imp(And(0 <= x, x < hi, s.v.prim(x), IDX[x] == -1), Or(f, also(x)) if also else f), [FV[x]]))]


def bf(x, W=None):
    c = getattr(x, 'c', x)
    G = x.st.ghosts
    v = c.v
    return BF(W or {n: G[n] for n, _ in BW}, v, c.a('size_constraint'), c.a('radius_constraint'), RAD(c.a('radius')), c.a('ignore_unassigned'))


def _rb_pre(c):
    v = c.v; i = z3.Int('i')
    v.cl = c.struct('clustering', mod=('num_clusters',)); v.N = v.cl('num_data_points')
    v.k = c.a('size_constraint'); v.na = NA(c)
    c.fact('number of points', And(v.k >= 2, v.k <= v.N, v.N <= c.const('ISCC_POINTINDEX_MAX'), v.cl('num_clusters') == 0, v.cl('clustering_version') == c.const('ISCC_CLUSTERING_STRUCT_VERSION')))
    v.lab = c.arr(v.cl.loc('cluster_label'), v.N, mod=True)
    v.o, v.hd = handle_arg(c, 'nn_search_object'); v.ds = v.hd.ds
    c.fact('all points are searched', And(v.hd.N == v.N, v.hd.n == v.N, B(v.hd.nul)))
    c.fact('radius positive', Imp(c.a('radius_constraint'), c.a('radius') > 0))
    v.pn = nullness(c, 'primary_data_points', 'pn')
    v.pr = c.arr('primary_data_points', v.N, null=T if v.pn else F)
    v.prim = (lambda x: T) if v.pn else (lambda x: v.pr.o(x) if c.old is not None else v.pr.at(x))
    v.b = c.a('batch_size')
    c.fact('batch size', And(v.b >= 1, v.b <= v.N))
    v.B = c.arr('batch_indices', v.b, mod=True); v.row = c.arr('out_indices', mul(v.k, v.b), mod=True); v.asg = c.arr('assigned', v.N, mod=True)
    c.fact('none assigned', forall([i], Imp(And(0 <= i, i < v.N), Not(v.asg.at(i))), [v.asg.at(i)]))


def _rb_post(c):
    v = c.v

    def ok():
        W = {n: ghost(c, n, s) for n, s in BW}; b = bf(c, W); nl = v.cl('num_clusters')
        c.fact('at least one cluster', And(nl >= 1, nl <= c.const('SCC_CLABEL_MAX')), CB)
        for nm, f in b.clusters(v.lab.at, nl) + b.left(v.lab.at, v.N) + b.searched(v.N) + b.blocked(v.N):
            c.fact(nm, f, CB + ('C06',))

    def none():
        W = {n: ghost(c, n, s) for n, s in BW}; b = bf(c, W); x = z3.Int('x')
        c.fact('nobody is a member', forall([x], Imp(And(0 <= x, x < v.N), b.W['IDX'][x] == -1), [b.W['IDX'][x]]), CB)
        for nm, f in b.searched(v.N):
            c.fact(nm, f, CB + ('C10',))
        c.fact('no primary point has enough points in reach', forall([x], Imp(And(0 <= x, x < v.N, v.prim(x)), b.W['FV'][x] < v.k), [b.W['FV'][x]]), CB + ('C10',))
        none_ok()
    none_ok = lambda: c.fact('no clusters on error', v.cl('num_clusters') == 0, ('C10', 'C11'))
    return [('ok', c.ret == EC(c, 'OK'), ok), ('error no solution', c.ret == EC(c, 'NO_SOLUTION'), none), ('error search', c.ret == EC(c, 'DIST_SEARCH_ERROR'), none_ok), ('error too many', c.ret == EC(c, 'TOO_LARGE_PROBLEM'), none_ok)]


# ---------------------------------------------------------------- loops
def common(L, hi, nl, part=None, pend=None):
    """state of the clusters; hi: points considered so far; pend: positions pend.. of the batch are searched but not considered"""
    c = L.c; v = c.v; x = z3.Int('x'); b = bf(L); lab, asg = v.lab.at, v.asg.at; IDX = b.W['IDX']
    r = [('labels used', And(0 <= nl, nl <= c.const('SCC_CLABEL_MAX')))]
    r += [('assigned points are the members', forall([x], Imp(And(0 <= x, x < v.N), asg(x) == (IDX[x] != -1)), [asg(x), IDX[x]]))]
    r += b.clusters(lab, nl, part=part) + b.left(lab, hi) + b.searched(hi)
    if pend:
        o, n = pend
        TI = L.st.ghosts.get('TI', const('TI', AI)); RK = L.st.ghosts['iscc_nearest_neighbor_search.RK']
        r += b.blocked(hi, also=lambda x: And(TI[x] != -1, RK[TI[x]] >= o))
    else:
        r += b.blocked(hi)
    return r


def _rb0(L):
    c = L.c; v = c.v; nl = L.v('next_cluster_label'); cur = L.v('curr_point'); sd = L.v('search_done')
    return [('position', And(0 <= cur, cur <= v.N, Imp(Not(sd), nl == 0), Imp(B(v.pn), Or(cur == 0, sd)), Imp(And(sd, Not(c.a('radius_constraint'))), nl >= 1)))] + common(L, cur, nl)


def _fill(L):
    c = L.c; v = c.v; nl = L.v('next_cluster_label'); cur = L.v('curr_point'); n = L.v('in_batch'); a, i = ivars('a', 'i'); Bt = v.B.at; st = L.st.ghosts['START']; W = bf(L)
    x = z3.Int('x'); IDX = W.W['IDX']; TB = L.g('TB')
    inb = lambda x: And(0 <= TB[x], TB[x] < n, Bt(TB[x]) == x)
    old = common(L, st, nl)
    return [('position', And(0 <= n, n <= v.b, st <= cur, cur <= v.N, n <= cur - st, Imp(And(B(v.pn), n == 0, nl == 0), cur == st)))] + old + \
        [('points in the batch', forall([i], Imp(And(0 <= i, i < n), And(st <= Bt(i), Bt(i) < cur, IDX[Bt(i)] == -1, v.lab.at(Bt(i)) == v.na, v.prim(Bt(i)))), [Bt(i)])),
         ('batch in order', forall([a, i], Imp(And(0 <= a, a < i, i < n), Bt(a) < Bt(i)), [(Bt(a), Bt(i))])),
         ('points passed', forall([x], Imp(And(st <= x, x < cur, IDX[x] == -1), And(v.lab.at(x) == v.na, Imp(v.prim(x), inb(x)))), [IDX[x], v.lab.at(x)]))]


def _fill_g0(L):
    L.setg('START', L.v('curr_point')); L.setg('TB', const('TB', AI))


def _fill_exit(L):
    nl_(L, 'mono', L.v('in_batch'), L.c.v.b, L.c.v.k)


def _fill_step(L):
    L.setg('TB', z3.Store(L.g('TB'), L.p('curr_point'), L.p('in_batch')))


def _searched(c, o):
    """after a search: what was found, by point"""
    if o != 'ok':
        return
    G = c.st.ghosts; v = c.v; a, i, x, j = ivars('a', 'i', 'x', 'j'); key = 'iscc_nearest_neighbor_search.'
    P, Q, Fq, RK, QR = [G[key + n] for n in ('Pq', 'Qq', 'Fq', 'RK', 'QR')]
    C = c.call('iscc_nearest_neighbor_search'); n = C.a('len_query_indices'); q = C.v.q.o; b = bf(c); k = b.k; oq = C.v.oq.at; nok = C.v.num._rd(c.st, '')
    c.lemma('batch in order', forall([a, i], Imp(And(0 <= a, a < i, i < n), q(a) < q(i)), [(q(a), q(i))]), CB)
    TI = inverse_exists(c.st, q, n, 'TI')
    c.setg('TI', TI)
    PV, QV, FV = const('PV', AAI), const('QV', AAI), const('FV', AI); old = [G[m] for m in ('PV', 'QV', 'FV')]
    for new, ol, by in ((PV, old[0], P), (QV, old[1], Q), (FV, old[2], Fq)):
        c.assume_def(forall([x], new[x] == Ite(TI[x] != -1, by[TI[x]], ol[x]), [new[x]]), 'ghost')
    for nm, g in (('PV', PV), ('QV', QV), ('FV', FV)):
        c.setg(nm, g)
    b = bf(c)
    hi = c.local('curr_point')
    c.by('batch members', forall([i], Imp(And(0 <= i, i < n), And(0 <= q(i), q(i) < hi, b.W['IDX'][q(i)] == -1, v.lab.at(q(i)) == v.na, v.prim(q(i)), TI[q(i)] == i)), [q(i)]), None, CB, only=('points in the batch', 'inverse list', 'position'))
    st = G['START']
    c.by('batch points by place', forall([x], Imp(And(0 <= x, x < hi, b.W['IDX'][x] == -1, v.prim(x)), Or(x < st, And(0 <= TI[x], TI[x] < n, q(TI[x]) == x))), [b.W['IDX'][x]]), None, CB, only=('points passed', 'inverse list', 'position'))
    c.by('earlier points are not in the batch', forall([x], Imp(And(0 <= x, x < st), TI[x] == -1), [TI[x]]), None, CB, only=('points in the batch', 'inverse list', 'position'))
    for nm, f in b.searched(hi):
        c.by(nm, f, None, CB, only=('ghost', 'inverse list', 'batch points by place', 'earlier points are not in the batch', 'position', nm, 'iscc_nearest_neighbor_search: ' + nm[8:]))
    c.by('reported points', forall([i], Imp(And(0 <= i, i < nok), And(0 <= QR[i], QR[i] < n, Fq[QR[i]] == k, RK[QR[i]] == i, oq(i) == q(QR[i]))), [QR[i], oq(i)]), None, CB, drop=('ordered', 'left out', 'listed'))
    c.by('reported points are in order', forall([a, i], Imp(And(0 <= a, a < i, i < nok), oq(a) < oq(i)), [(oq(a), oq(i))]), None, CB, only=('reported points', 'rank', 'rank ordered', 'batch in order'))


def _rb3(L):
    c = L.c; v = c.v; nl = L.v('next_cluster_label'); cur = L.v('curr_point'); i = L.v('i'); r = z3.Int('r'); nok = L.v('num_ok_in_batch'); IDX = L.st.ghosts['IDX']; Bt = v.B.at
    return [('position', And(L.off('check_indices') == mul(i, v.k), 0 <= i, i <= nok, Imp(i >= 1, nl >= 1), Imp(L.v('next_cluster_label') == 0, T)))] + common(L, cur, nl, pend=(i, nok)) + \
        [('points to come have no label', forall([r], Imp(And(i <= r, r < nok, IDX[Bt(r)] == -1), v.lab.at(Bt(r)) == v.na), [Bt(r)]))]


def _rb3_g0(L):
    c = L.c; v = c.v
    L.assume_def(MUL(I(0), v.k) == 0, 'product with zero')
    nl_(L, 'mono', L.v('num_ok_in_batch'), L.v('in_batch'), v.k); nl_(L, 'mono', L.v('in_batch'), v.b, v.k)


nl_ = nl


def _rb3_head(L):
    c = L.c; v = c.v; i = L.v('i'); k = v.k; p = z3.Int('p'); G = L.st.ghosts; key = 'iscc_nearest_neighbor_search.'; nok = L.v('num_ok_in_batch')
    P, QR, RK = G[key + 'Pq'], G[key + 'QR'], G[key + 'RK']
    nl_(L, 'succ', i, k); nl_(L, 'mono', i + 1, nok, k); nl_(L, 'mono', I(0), i, k)
    q = QR[i]; base = mul(i, k); x = v.B.at(i); j = z3.Int('j'); b = bf(L); R = const('ROW', AI)
    inn = i < nok
    L.by('the point considered', Imp(inn, And(0 <= x, x < v.N, x < L.v('curr_point'), v.prim(x), G.get('TI', const('TI', AI))[x] == q, RK[q] == i, 0 <= q)), None, CB, only=('reported points', 'batch members', 'position'))
    L.by('its row', Imp(inn, forall([p], Imp(And(base <= p, p < base + k), And(v.row.at(p) == P[q][p - base], 0 <= v.row.at(p), v.row.at(p) < v.N)), [v.row.at(p)])), None, CB, only=('reported points', 'iscc_nearest_neighbor_search: reported neighbours', 'iscc_nearest_neighbor_search: listed points', 'position'))


def _rb4(L):
    c = L.c; v = c.v; o = L.off('check_indices'); i = L.v('i'); p = z3.Int('p'); base = mul(i, v.k)
    return [('position', And(base <= o, o <= base + v.k)), ('none assigned so far', forall([p], Imp(And(base <= p, p < o), Not(v.asg.at(v.row.at(p)))), [v.row.at(p)]))]


def _rb5(L):
    c = L.c; v = c.v; o = L.off('check_indices'); i = L.v('i'); base = mul(i, v.k); j = o - base; G = L.st.ghosts; nl = L.v('next_cluster_label'); cur = L.v('curr_point'); r, y = ivars('r', 'y'); nok = L.v('num_ok_in_batch')
    P, Q = G['iscc_nearest_neighbor_search.Pq'], G['iscc_nearest_neighbor_search.Qq']; q = G['iscc_nearest_neighbor_search.QR'][i]; IDX = G['IDX']
    return [('position', And(base <= o, o <= base + v.k - 1))] + common(L, cur, nl, part=(P[q], j), pend=(i, nok)) + \
        [('new members', forall([y], Imp(And(0 <= y, y < j), And(IDX[P[q][y]] == y, v.lab.at(P[q][y]) == nl)), [P[q][y]])),
         ('rest of the row', forall([y], Imp(And(j <= y, y < v.k), IDX[P[q][y]] == -1), [P[q][y]])),
         ('points to come have no label', forall([r], Imp(And(i <= r, r < nok, IDX[v.B.at(r)] == -1), v.lab.at(v.B.at(r)) == v.na), [v.B.at(r)]))]


def _rb5_step(L):
    c = L.c; v = c.v; o = L.off('check_indices') - 1
    old = L.g('IDX'); L.setg('IDX', z3.Store(old, v.row.at(o), o - mul(L.v('i'), v.k)))
    L.by('new member was none', old[v.row.at(o)] == -1, None, CB, only=('its row', 'loop5/rest of the row', 'loop5/position'))
    for nm, f in bf(L).clusters(v.lab.at, L.v('next_cluster_label')):
        if nm == 'members are the nearest':
            L.by(nm, f, None, CB, only=('loop5/members are the nearest', 'new member was none', 'loop5/labels used'))


def _rb3_step(L):
    """the point considered became a seed, was left over, or was a member already"""
    c = L.c; v = c.v; G = L.st.ghosts; i = L.p('i'); k = v.k; x = v.B.at(i); key = 'iscc_nearest_neighbor_search.'; q = G[key + 'QR'][i]; P = G[key + 'Pq']
    nl, pn = L.v('next_cluster_label'), L.p('next_cluster_label')
    if not L.eng.quick(L.st, nl == pn):
        IDX = G['IDX']; last = Ite(IDX[x] != -1, P[q][k - 1], x)
        L.setg('MEM', z3.Store(G['MEM'], pn, z3.Store(P[q], k - 1, last)))
        L.setg('IDX', z3.Store(IDX, last, k - 1))
        L.setg('SEED', z3.Store(G['SEED'], pn, x))
        j, y = ivars('j', 'y'); b = bf(L); Q = G[key + 'Qq']; I2 = b.W['IDX']; M = b.W['MEM'][pn]; N = v.N; iny = And(0 <= y, y < N)
        sp = 'iscc_nearest_neighbor_search: '
        L.by('order in the row', forall([j, y], Imp(And(0 <= j, j < k, iny, Or(Q[q][y] == -1, j <= Q[q][y])), b.D(x, P[q][j]) <= b.D(x, y)), [(P[q][j], Q[q][y])]), None, CB, only=(sp + 'ordered by distance', sp + 'points left out are not closer', sp + 'listed points', 'reported points', 'the point considered', 'position'))
        L.by('points of the row', forall([y], Imp(And(iny, Q[q][y] != -1), And(0 <= Q[q][y], Q[q][y] < k, P[q][Q[q][y]] == y)), [Q[q][y]]), None, CB, only=(sp + 'points left out are not closer', 'reported points', 'the point considered', 'position'))
        L.by('last of the row', And(v.row.at(mul(i, k) + k - 1) == P[q][k - 1], v.lab.at(last) == pn, I2[last] == k - 1), None, CB, only=('its row', 'loop5/new members', 'loop5/position', 'loop5/assigned points are the members', 'the point considered'))
        L.by('points of the row are members', forall([y], Imp(And(iny, Q[q][y] != -1), And(Or(Q[q][y] == k - 1, And(v.lab.at(y) == pn, I2[y] != -1)), Imp(last == P[q][k - 1], And(v.lab.at(y) == pn, I2[y] != -1)))), [Q[q][y], I2[y]]), None, CB, only=('points of the row', 'last of the row', 'loop5/new members', 'loop5/position'))
        L.by('members of the new cluster', forall([j], Imp(And(0 <= j, j < k), And(M[j] == Ite(j == k - 1, last, P[q][j]))), [M[j]]), None, CB, only=())
        L.by('the new cluster is nearest', forall([j, y], Imp(And(0 <= j, j < k, M[j] != x, iny, Not(And(v.lab.at(y) == pn, I2[y] != -1))), b.D(x, M[j]) <= b.D(x, y)), [(M[j], I2[y])]), None, CB, only=('order in the row', 'points of the row are members', 'members of the new cluster', 'the point considered'))
        L.by('last was no member', And(IDX[last] == -1, 0 <= last, last < N), None, CB, only=('its row', 'loop5/rest of the row', 'loop5/position', 'loop5/assigned points are the members', 'the point considered'))
        for nm, f in b.clusters(v.lab.at, nl):
            if nm == 'members are the nearest':
                L.by(nm, f, None, CB, only=('loop5/members are the nearest', 'the new cluster is nearest', 'loop5/labels used', 'last was no member', 'last of the row', 'the point considered', 'members of the new cluster', 'loop5/assigned points are the members'))
    else:
        b = L.st.ghosts.get('BL')
        if b is not None:
            L.setg('PRE', z3.Store(G['PRE'], x, v.row.at(b))); L.setg('BLK', z3.Store(G['BLK'], x, b - mul(i, k)))


def _rb4_exit(L):
    L.setg('BL', L.off('check_indices'))


def _rb_g0(L):
    x = z3.Int('x'); O = const('IDX', AI)
    L.assume_def(forall([x], O[x] == -1, [O[x]]), 'ghost')
    for n, s in BW:
        L.setg(n, O if n == 'IDX' else const(n, s))


r = reg('iscc_run_nng_batches', _rb_pre, _rb_post,
        loops={0: LS(_rb0, ghosts=[n for n, _ in BW], ghost0=_rb_g0),
               1: LS(_fill, ghosts=('TB',), ghost0=_fill_g0, step=_fill_step, exit=_fill_exit), 2: LS(_fill, ghosts=('TB',), ghost0=_fill_g0, step=_fill_step, exit=_fill_exit),
               3: LS(_rb3, ghosts=('MEM', 'IDX', 'SEED', 'PRE', 'BLK'), ghost0=_rb3_g0, head=_rb3_head, step=_rb3_step),
               4: LS(_rb4, exit=_rb4_exit), 5: LS(_rb5, ghosts=('IDX',), step=_rb5_step)}, props=('C01', 'C06', 'C08', 'C09', 'C10', 'C11', 'C12', 'C16'))
r.after = {'iscc_nearest_neighbor_search': _searched}
r.variants = [{'sn': True, 'pn': True}, {'sn': True, 'pn': False}]


# ---------------------------------------------------------------- the entry point
def batch_primary(c, pr, np_, N):
    """positions of the primary points"""
    PI = ghost(c, 'PI', AI); x, i = ivars('x', 'i')
    return PI, [('primary points by number', And(forall([x], Or(PI[x] == -1, And(0 <= PI[x], PI[x] < np_, pr(PI[x]) == x)), [PI[x]]), forall([i], Imp(And(0 <= i, i < np_), PI[pr(i)] != -1), [pr(i)])))]


def batch_rules(c, cl, lab, nc, ds, k, um, rad, R, pr, np_):
    N = cl.o('num_data_points'); K = c.const
    return [('INVALID_INPUT', Not(cl_valid(c, cl, lab))), ('INVALID_INPUT', Or(nc, Not(DSOK(ds)), NPTS(ds) != N)), ('INVALID_INPUT', k < 2), ('NO_SOLUTION', N < k), ('INVALID_INPUT', And(um != K('SCC_UM_IGNORE'), um != K('SCC_UM_ANY_NEIGHBOR'))),
            ('INVALID_INPUT', And(rad, R <= 0)), ('INVALID_INPUT', pr.isnull != (np_ == 0)), ('NOT_IMPLEMENTED', cl.o('num_clusters') != 0)]


def _nb_pre(c):
    v = c.v; i = z3.Int('i')
    v.cl, v.lab = clustering_arg(c, mod=('num_clusters', 'external_labels', 'cluster_label'), mod_labels=True)
    v.p, v.nc = c.opaque('data_set', null='maybe'); v.ds = ds_id(v.p) if not (isinstance(v.p.obj, int) and v.p.obj == 0) else I(0)
    v.np = c.a('len_primary_data_points'); v.pr = c.arr('primary_data_points', v.np, null='maybe')
    v.N = v.cl('num_data_points'); v.k = c.a('size_constraint'); v.na = NA(c)
    c.fact('length of the primary list', v.np <= (1 << 60))
    c.fact('primary points: data points', forall([i], Imp(And(Not(v.pr.isnull), 0 <= i, i < v.np), And(v.pr.at(i) >= 0, v.pr.at(i) < v.N)), [v.pr.at(i)]))
    v.rules = None


def _nb_W(c):
    v = c.v
    v.PI, f = batch_primary(c, v.pr.o, Ite(v.pr.isnull, I(0), v.np), v.N)
    v.prim = lambda x: Or(v.pr.isnull, v.PI[x] != -1)
    W = {n: ghost(c, n, s) for n, s in BW}
    return BF(W, v, v.k, c.a('radius_constraint'), RAD(c.a('radius')), c.a('unassigned_method') == c.const('SCC_UM_IGNORE')), f


def label_cases(c):
    """labels that were there are kept; new ones belong to the clustering"""
    v = c.v

    def kept():
        c.same(v.cl.loc('cluster_label')); c.fact('ownership of labels', Or(v.lab.isnull, v.cl('external_labels') == v.cl.o('external_labels')), ('C12', 'C13'))
        v.lab2 = v.lab

    def made():
        c.fact('labels were absent', v.lab.isnull, ('C12', 'C13'))
        v.lab2 = c.fresh(v.cl.loc('cluster_label'), v.N)
        c.fact('labels belong to the clustering', Not(v.cl('external_labels')), ('C12', 'C13'))
    isnew = lambda: And(v.lab.isnull, Not(c.eng.isnull(v.cl._rd(c.st, 'cluster_label'))))
    return [('labels kept', lambda: Not(isnew()), kept), ('labels made', isnew, made)]


def _nb_post(c):
    v = c.v; key = 'iscc_run_nng_batches'
    rules = batch_rules(c, v.cl, v.lab, v.nc, v.ds, v.k, c.a('unassigned_method'), c.a('radius_constraint'), c.a('radius'), v.pr, v.np)
    bad = lambda code=None: Or(*[f for k, f in rules if code in (None, k)])

    def adopt():
        if not c.producing():
            c.adopt(key, [n for n, _ in BW])

    def ok():
        adopt(); b, f = _nb_W(c); nl = v.cl('num_clusters'); lab = v.lab2.at
        c.fact('at least one cluster', And(nl >= 1, nl <= c.const('SCC_CLABEL_MAX')), CB)
        for nm, g in f + b.clusters(lab, nl) + b.left(lab, v.N) + b.searched(v.N) + b.blocked(v.N):
            c.fact(nm, g, CB + ('C06',))

    def none():
        adopt(); b, f = _nb_W(c); x = z3.Int('x')
        for nm, g in f + [('nobody is a member', forall([x], Imp(And(0 <= x, x < v.N), b.W['IDX'][x] == -1), [b.W['IDX'][x]]))] + b.searched(v.N) + [('no primary point has enough points in reach', forall([x], Imp(And(0 <= x, x < v.N, v.prim(x)), b.W['FV'][x] < v.k), [b.W['FV'][x]]))]:
            c.fact(nm, g, CB + ('C10',))
        c.fact('no clusters on error', v.cl('num_clusters') == 0, ('C10', 'C11'))
    zero = lambda: c.fact('no clusters on error', v.cl('num_clusters') == 0, ('C10', 'C11'))

    def same():
        c.fact('clustering untouched', Or(v.cl.isnull, And(*[v.cl(f) == v.cl.o(f) for f in ('num_clusters', 'external_labels')])), ('C10', 'C11', 'C12')) if not is_true(v.cl.isnull) else None
        c.same(v.cl.loc('cluster_label'))
    r = []
    for code in ('INVALID_INPUT', 'NO_SOLUTION', 'NOT_IMPLEMENTED'):
        r.append(('rejected: ' + code, (lambda code=code: And(c.ret == EC(c, code), bad())), lambda code=code: (same(), c.fact('a rule with the returned code is violated', bad(code), ('C10',)))))
    for nm, code, g, body in (('ok', 'OK', T, ok), ('error no memory', 'NO_MEMORY', oom(c), zero), ('error search', 'DIST_SEARCH_ERROR', T, zero), ('error too many', 'TOO_LARGE_PROBLEM', T, zero), ('error no solution', 'NO_SOLUTION', T, none)):
        for ln, lg, lb in label_cases(c):
            r.append(('%s, %s' % (nm, ln), (lambda code=code, g=g, lg=lg: And(c.ret == EC(c, code), g, lg(), Not(bad()))), (lambda lb=lb, body=body: (lb(), body()))))
    return r


def _nb0(L):
    c = L.c; v = c.v; i = L.v('i'); x, j = ivars('x', 'j'); t = L.arr('tmp_primary_data_points').at; PI = L.g('PI')
    return [('primary points marked', And(forall([x], Imp(And(0 <= x, x < v.N), t(x) == (PI[x] != -1)), [t(x), PI[x]]), forall([x], Or(PI[x] == -1, And(0 <= PI[x], PI[x] < i, v.pr.at(PI[x]) == x)), [PI[x]]), forall([j], Imp(And(0 <= j, j < i), PI[v.pr.at(j)] != -1), [v.pr.at(j)])))]


def _nopi(x):
    k = z3.Int('k'); O = const('PI', AI); x.assume_def(forall([k], O[k] == -1, [O[k]]), 'ghost'); x.setg('PI', O)


def _nb_call(c, o):
    if 'PI' not in c.st.ghosts:
        _nopi(c)


r = reg('scc_nng_clustering_batches', _nb_pre, _nb_post, loops={0: LS(_nb0, ghosts=('PI',), ghost0=_nopi, step=lambda L: L.setg('PI', z3.Store(L.g('PI'), L.c.v.pr.at(L.p('i')), L.p('i'))))},
        props=('C01', 'C06', 'C08', 'C09', 'C10', 'C11', 'C12', 'C16'))
r.after = {'iscc_run_nng_batches': _nb_call}
