"""scc_get_clustering_stats (C14)"""
from .base import *
from .spi import *
from .spi import WHY
from .dist import TRI, PR, PC, tri_facts
from .core import cl_valid, clustering_arg
from .findseeds import const, ghost
from vc import AV as AV_, I2D
C14 = ('C14',)
LS = LoopSpec
AR = z3.ArraySort(IS, RS)
PSUM = z3.Function('pairsum', AI, IS, IS, IS, IS, RS)      # pairsum(points, first, n, data set, k): sum of the distances of the first k pairs (lexicographic order) of n points


# ---------------------------------------------------------------- the distance matrix at its call sites
def _gx_pre(c):
    v = c.v
    v.ds, v.N = ds_arg(c); n = c.a('len_point_indices')
    c.fact('at least two points', n >= 2)
    v.pi, v.nul = index_list(c, 'point_indices', n, v.N, 'pn')
    v.ix = (lambda i: i) if v.nul else (lambda i: v.pi.o(i))
    v.out = c.arr('output_dists', TRI(n, n), mod=True)


def _gx_post(c):
    def ok():
        v = c.v; n = c.a('len_point_indices'); k = z3.Int('k')
        c.fact('distance of the k-th pair in lexicographic order', forall([k], Imp(And(0 <= k, k < TRI(n, n)), And(v.out.at(k) == EDIST(v.ds, v.ix(PR(n, k)), v.ix(PC(n, k))), v.out.at(k) >= 0)), [v.out.at(k)]))
        c.fact('pairs', forall([k], Imp(And(0 <= k, k < TRI(n, n)), And(0 <= PR(n, k), PR(n, k) < PC(n, k), PC(n, k) < n)), [PR(n, k)]))
    return [('ok', c.ret, ok), ('no memory or failure', Not(c.ret), None)]


reg('iscc_get_dist_matrix', _gx_pre, _gx_post, trusted=WHY)


# ---------------------------------------------------------------- statistics
FIELDS = ('num_data_points', 'num_assigned', 'num_clusters', 'num_populated_clusters', 'min_cluster_size', 'max_cluster_size', 'avg_cluster_size', 'sum_dists', 'min_dist', 'max_dist', 'avg_min_dist', 'avg_max_dist', 'avg_dist_weighted', 'avg_dist_unweighted')
DBL_MAX = z3.RealVal('1.7976931348623157e+308')
WIT = (('ML', AI), ('SU', AI), ('MI', AI), ('PP', AI), ('CN', AR), ('CX', AR), ('KN', AI), ('KX', AI)) + tuple((n, AR) for n in ('TS', 'TN', 'TX', 'TW', 'TU'))


def _st_pre(c):
    v = c.v; i = z3.Int('i')
    v.cl, v.lab = clustering_arg(c, 'clustering')
    v.p, v.nc = c.opaque('data_set', null='maybe'); v.ds = ds_id(v.p) if not (isinstance(v.p.obj, int) and v.p.obj == 0) else I(0)
    v.out = c.struct('out_stats', null='maybe', mod=True)
    v.N, v.C = v.cl('num_data_points'), v.cl('num_clusters')
    na = NA(c)
    c.fact('labels are cluster numbers or none', forall([i], Imp(And(Not(v.lab.isnull), 0 <= i, i < v.N), Or(v.lab.at(i) == na, And(0 <= v.lab.at(i), v.lab.at(i) < v.C))), [v.lab.at(i)]))


class G:
    """points grouped by cluster.  SU: first slot of each cluster; ML: the point in each slot; MI: the slot of each point"""

    def __init__(s, c, W, lab, na):
        s.c, s.W, s.lab, s.na = c, W, lab, na; s.N, s.C, s.ds = c.v.N, c.v.C, c.v.ds

    def size(s, k):
        return s.W['SU'][k + 1] - s.W['SU'][k]

    def D(s, a, k):
        """the k-th distance of cluster a"""
        n = s.size(a); b = s.W['SU'][a]
        return EDIST(s.ds, s.W['ML'][b + PR(n, k)], s.W['ML'][b + PC(n, k)])

    def psum(s, a, k):
        return PSUM(s.W['ML'], s.W['SU'][a], s.size(a), s.ds, k)

    def groups(s):
        SU, ML, MI = s.W['SU'], s.W['ML'], s.W['MI']; a, q, x = ivars('a', 'q', 'x')
        return [('slots of clusters', And(SU[0] == 0, forall([a], Imp(And(0 <= a, a < s.C), And(SU[a] <= SU[a + 1], SU[a] >= 0)), [SU[a + 1]]))),
                ('slots hold the points of their cluster', forall([a, q], Imp(And(0 <= a, a < s.C, SU[a] <= q, q < SU[a + 1]), And(0 <= ML[q], ML[q] < s.N, s.lab(ML[q]) == a, MI[ML[q]] == q)), [(SU[a + 1], ML[q])])),
                ('every labelled point has a slot', forall([x], Imp(And(0 <= x, x < s.N, s.lab(x) != s.na), And(SU[s.lab(x)] <= MI[x], MI[x] < SU[s.lab(x) + 1], ML[MI[x]] == x)), [MI[x]]))]

    def sizes(s, f, hi):
        """counts of clusters below hi"""
        a, b = ivars('a', 'b'); PP = s.W['PP']
        mn, mx = f('min_cluster_size'), f('max_cluster_size')
        return [('populated clusters counted', And(PP[0] == 0, forall([a], Imp(And(0 <= a, a < hi), And(0 <= PP[a], PP[a] <= a, PP[a + 1] == PP[a] + Ite(s.size(a) > 0, I(1), I(0)))), [PP[a + 1]]), f('num_populated_clusters') == PP[hi], 0 <= PP[hi], PP[hi] <= hi)),
                ('assigned points', And(f('num_assigned') == s.W['SU'][hi], s.W['SU'][hi] >= 0)),
                ('no populated cluster is smaller', forall([a], Imp(And(0 <= a, a < hi, s.size(a) > 0), And(mn <= s.size(a), PP[hi] >= 1)), [s.W['SU'][a + 1]])),
                ('no cluster is larger', forall([a], Imp(And(0 <= a, a < hi), mx >= s.size(a)), [s.W['SU'][a + 1]])),
                ('some cluster has the smallest size', Or(And(PP[hi] == 0, mn == (1 << 64) - 1), And(PP[hi] >= 1, 0 <= s.W['KMIN'], s.W['KMIN'] < hi, s.size(s.W['KMIN']) == mn, mn >= 1))),
                ('some cluster has the largest size', Or(And(PP[hi] == 0, mx == 0), And(PP[hi] >= 1, 0 <= s.W['KMAX'], s.W['KMAX'] < hi, s.size(s.W['KMAX']) == mx, mx >= 1)))]

    def extremes(s, hi):
        CN, CX, KN, KX = (s.W[n] for n in ('CN', 'CX', 'KN', 'KX')); a, k = ivars('a', 'k'); n = s.size(a)
        g = And(0 <= a, a < hi, n >= 2)
        return [('extreme distances of a cluster occur in it', forall([a], Imp(g, And(0 <= KN[a], KN[a] < TRI(n, n), CN[a] == s.D(a, KN[a]), 0 <= KX[a], KX[a] < TRI(n, n), CX[a] == s.D(a, KX[a]), CN[a] >= 0)), [CN[a], CX[a]])),
                ('no distance of a cluster is beyond them', forall([a, k], Imp(And(g, 0 <= k, k < TRI(n, n)), And(CN[a] <= s.D(a, k), s.D(a, k) <= CX[a])), [(CN[a], PR(n, k))]))]

    def totals(s, hi):
        """the running totals"""
        a = z3.Int('a'); n = s.size(a); S = s.psum(a, TRI(n, n)); W = s.W
        add = lambda z: {'TS': S, 'TN': W['CN'][a], 'TX': W['CX'][a], 'TW': FDIV(FMUL(I2D(n), S), I2D(TRI(n, n))), 'TU': FDIV(S, I2D(TRI(n, n)))}[z]
        return [('totals: ' + z, And(W[z][0] == 0, forall([a], Imp(And(0 <= a, a < hi), W[z][a + 1] == Ite(n < 2, W[z][a], FADD(W[z][a], add(z)))), [W[z][a + 1]]))) for z in ('TS', 'TN', 'TX', 'TW', 'TU')]

    def range_(s, mn, mx, hi):
        a = z3.Int('a'); n = s.size(a); CN, CX, SU = s.W['CN'], s.W['CX'], s.W['SU']
        one = forall([a], Imp(And(0 <= a, a < hi, n == 1), mn == 0), [SU[a + 1]])
        A, B = s.W['ANY'], s.W['ANX']
        return [('a single point counts as distance zero', one),
                ('smallest distance', And(mn >= 0, forall([a], Imp(And(0 <= a, a < hi, n >= 2), mn <= CN[a]), [SU[a + 1], CN[a]]), Or(mn == DBL_MAX, And(0 <= A, A < hi, Or(And(s.size(A) == 1, mn == 0), And(s.size(A) >= 2, mn == CN[A])))))),
                ('largest distance', And(mx >= 0, forall([a], Imp(And(0 <= a, a < hi, n >= 2), mx >= CX[a]), [SU[a + 1], CX[a]]), Or(mx == 0, And(0 <= B, B < hi, s.size(B) >= 2, mx == CX[B]))))]


def _st_post(c):
    v = c.v; f = lambda n: v.out(n)
    rules = Or(v.out.isnull, Not(cl_valid(c, v.cl, v.lab)), v.C == 0, v.nc, Not(DSOK(v.ds)), NPTS(v.ds) != v.N)

    def zero():
        if not is_true(v.out.isnull):
            c.fact('no statistics on error', Or(v.out.isnull, And(*[f(n) == 0 for n in FIELDS])), C14 + ('C11',))

    def rej():
        zero()
        c.fact('an argument is invalid', rules, ('C10',))

    def ok(empty):
        W = {n: ghost(c, n, s) for n, s in WIT + (('KMIN', IS), ('KMAX', IS), ('ANY', IS), ('ANX', IS))}
        g = G(c, W, v.lab.o, NA(c)); PP, SU = W['PP'], W['SU']
        if not c.producing():
            _st_final(c, g, empty)
        c.fact('numbers of points and clusters', And(f('num_data_points') == v.N, f('num_clusters') == v.C), C14)
        for nm, x in g.groups() + g.sizes(f, v.C):
            c.fact(nm, x, C14)
        if empty:
            c.fact('no distances', And(*[f(n) == 0 for n in ('avg_cluster_size', 'sum_dists', 'max_dist', 'avg_min_dist', 'avg_max_dist', 'avg_dist_weighted', 'avg_dist_unweighted')] + [f('min_dist') == DBL_MAX]), C14)
            return
        for nm, x in g.extremes(v.C) + g.totals(v.C) + g.range_(f('min_dist'), f('max_dist'), v.C):
            c.fact(nm, x, C14)
        P, A = I2D(PP[v.C]), I2D(SU[v.C])
        for n, x in (('avg_cluster_size', FDIV(A, P)), ('sum_dists', W['TS'][v.C]), ('avg_min_dist', FDIV(W['TN'][v.C], P)), ('avg_max_dist', FDIV(W['TX'][v.C], P)), ('avg_dist_weighted', FDIV(W['TW'][v.C], A)), ('avg_dist_unweighted', FDIV(W['TU'][v.C], P))):
            c.fact(n, f(n) == x, C14)
    return [('ok, nobody assigned', lambda: And(c.ret == EC(c, 'OK'), f('num_populated_clusters') == 0, Not(rules)), lambda: ok(True)), ('ok', lambda: And(c.ret == EC(c, 'OK'), f('num_populated_clusters') != 0, Not(rules)), lambda: ok(False)),
            ('rejected', lambda: And(c.ret == EC(c, 'INVALID_INPUT'), rules), rej), ('error no memory', And(c.ret == EC(c, 'NO_MEMORY'), oom(c)), zero), ('error distances', c.ret == EC(c, 'DIST_SEARCH_ERROR'), zero)]


# loop 0: sizes.  CT[i][a]: points below i with label a; SU: sums of the sizes so far
def ct_facts(L, CT, hi):
    v = L.c.v; i, a = ivars('i', 'a')
    return [('counted', And(forall([a], CT[0][a] == 0, [CT[0][a]]), forall([i, a], Imp(And(0 <= i, i < hi), CT[i + 1][a] == CT[i][a] + Ite(And(v.lab.at(i) == a, v.lab.at(i) != NA(L.c)), I(1), I(0))), [(CT[i + 1][a]), (CT[i][a], v.lab.at(i))])))]


def _l0(L):
    c = L.c; v = c.v; a = z3.Int('a'); CT, SU = L.g('CT'), L.g('SU'); i = L.v('i'); z = L.arr('cluster_size').at
    return ct_facts(L, CT, i) + [('sizes so far', forall([a], Imp(And(0 <= a, a < v.C), And(z(a) == CT[i][a], 0 <= z(a), z(a) <= i)), [z(a)])),
                                 ('sums of the sizes', And(SU[0] == 0, forall([a], Imp(And(0 <= a, a < v.C), And(SU[a + 1] == SU[a] + z(a), 0 <= SU[a], SU[a] <= i, 0 <= SU[a + 1], SU[a + 1] <= i)), [SU[a + 1]])))]


def _l0_g0(L):
    a, i = ivars('a', 'i'); CT, SU = const('CT', AAI), const('SU', AI)
    L.assume_def(forall([i, a], CT[i][a] == 0, [CT[i][a]]), 'ghost'); L.assume_def(forall([a], SU[a] == 0, [SU[a]]), 'ghost')
    L.setg('CT', CT); L.setg('SU', SU)


def _l0_step(L):
    v = L.c.v; i = L.p('i'); l = v.lab.at(i); has = l != NA(L.c); a = z3.Int('a')
    CT, SU = L.g('CT'), L.g('SU'); row = const('row', AI); S2 = const('SU', AI)
    L.assume_def(forall([a], row[a] == CT[i][a] + Ite(And(has, l == a), I(1), I(0)), [row[a]]), 'ghost')
    L.assume_def(forall([a], S2[a] == SU[a] + Ite(And(has, l < a), I(1), I(0)), [S2[a]]), 'ghost')
    L.setg('CT', z3.Store(CT, i + 1, row)); L.setg('SU', S2)


def _l3_head(L):
    v = L.c.v; i = L.v('i'); l = v.lab.at(i); CT, SU = L.g('CT'), L.g('SU')
    L.lemma('slot of the next point', Imp(And(i < v.N, l != NA(L.c)), And(0 <= l, l < v.C, 0 <= CT[i][l], CT[i][l] < CT[v.N][l], SU[l] >= 0, SU[l + 1] - SU[l] == CT[v.N][l], SU[l + 1] <= SU[v.C], SU[v.C] == L.v('tmp_stats', 'num_assigned'))), C14)


class LG(G):
    """inside the function: sizes are those in cluster_size"""

    def __init__(s, L, **W):
        c = L.c; s.c, s.lab, s.na = c, c.v.lab.at, NA(c); s.N, s.C, s.ds = c.v.N, c.v.C, c.v.ds
        s.W = dict({n: L.st.ghosts[n] for n in L.st.ghosts if '.' not in n and not n.startswith('@')}, **W)


def _l0_exit(L):
    """counts only grow"""
    c = L.c; v = c.v; CT, SU = L.g('CT'), L.g('SU'); i, j, a = ivars('i', 'j', 'a'); z = L.arr('cluster_size').at
    L.induct('counts only grow', [i, a], j, i, v.N, lambda j: CT[i][a] <= CT[j][a], [(CT[i][a], CT[j][a])], C14, guard=And(0 <= i, i <= v.N))
    L.by('sizes', forall([a], Imp(And(0 <= a, a < v.C), And(z(a) == SU[a + 1] - SU[a], z(a) == CT[v.N][a], SU[a + 1] <= v.N, SU[a] >= 0, SU[a] <= SU[a + 1])), [z(a), SU[a + 1]]), None, C14)
    x = z3.Int('x'); l = v.lab.at(x)
    L.by('a labelled point is counted', forall([x], Imp(And(0 <= x, x < v.N, l != NA(c)), And(0 <= l, l < v.C, CT[x + 1][l] == CT[x][l] + 1, CT[x + 1][l] <= CT[v.N][l], 0 <= CT[x][l])), [l]), None, C14)
    L.induct('slots are ordered', [i], j, i, v.C, lambda j: SU[i] <= SU[j], [(SU[i], SU[j])], C14, guard=And(0 <= i, i <= v.C))


def _l1(L):
    return LG(L).sizes(lambda n: L.v('tmp_stats', n), L.v('c')) + [('other statistics', And(*[L.v('tmp_stats', n) == L.e('tmp_stats', n) for n in FIELDS if n not in ('num_assigned', 'num_populated_clusters', 'min_cluster_size', 'max_cluster_size')]))]


def _l1_g0(L):
    L.setg('PP', z3.K(IS, I(0))); L.setg('KMIN', I(-1)); L.setg('KMAX', I(-1))


def _l1_step(L):
    c = L.p('c'); g = LG(L); n = g.size(c)
    for k, f, b in (('KMIN', 'min_cluster_size', L.p('tmp_stats', 'min_cluster_size') > n), ('KMAX', 'max_cluster_size', L.p('tmp_stats', 'max_cluster_size') < n)):
        L.setg(k, Ite(And(n > 0, b), c, L.g(k)))
    L.setg('PP', z3.Store(L.g('PP'), c + 1, L.g('PP')[c] + Ite(n > 0, I(1), I(0))))


def tri_size(x, n, big=(1 << 32) - 1):
    """n(n-1)/2 pairs"""
    N, T0 = z3.Ints('N T')
    proved('number of pairs', Imp(And(N >= 0, 2 * T0 == N * (2 * N - N - 1)), And(2 * T0 == N * (N - 1), T0 >= 0, Imp(N >= 2, T0 >= 1))))
    x.assume_def(Imp(n >= 0, And(mul(n, n - 1) == 2 * TRI(n, n), TRI(n, n) >= 0, Imp(n >= 2, TRI(n, n) >= 1))), 'number of pairs')
    nl(x, 'bound', n, n - 1, I(big), I(big))


def tri_mono(x, n, m):
    N, M, S, T0 = z3.Ints('N M S T')
    proved('more points have more pairs', Imp(And(0 <= N, N <= M, 2 * S == N * (N - 1), 2 * T0 == M * (M - 1)), S <= T0))
    x.assume_def(Imp(And(0 <= n, n <= m), TRI(n, n) <= TRI(m, m)), 'more points have more pairs')


def _l1_exit(L):
    mx = L.v('tmp_stats', 'max_cluster_size'); v = L.c.v
    L.lemma('largest cluster', And(0 <= mx, mx <= v.N), C14)
    a0 = const('a0', IS); L.assume_def(a0 + 1 == v.C, 'ghost'); SU = L.g('SU')
    L.lemma('assigned points are points', And(v.C >= 1, SU[a0 + 1] <= v.N, SU[a0 + 1] >= 0, L.v('tmp_stats', 'num_assigned') <= v.N, L.v('tmp_stats', 'num_assigned') >= 0), C14)
    tri_size(L, mx)


# loop 2: one behind the last slot of every cluster
def _l2(L):
    v = L.c.v; SU = L.g('SU'); a = z3.Int('a'); m = L.arr('cl_members'); c = L.v('c')
    return [('position', And(1 <= c, c <= v.C))] + members_at(L, lambda a: SU[a + 1], c)


def members_at(L, f, hi):
    a = z3.Int('a'); p = pm(L, a); ids = L.arr('id_store').p
    return [('pointers to the slots', forall([a], Imp(And(0 <= a, a < hi), And(Not(L.eng.isnull(p)), p.off == ids.off + f(a))), [p.off]))]


def pm(L, a):
    m = L.arr('cl_members')
    return m.at(a)


# loop 3: points into their slots.  RL[a][r]: the r-th point with label a
def _l3(L):
    v = L.c.v; SU, CT, RL = L.g('SU'), L.g('CT'), L.g('RL'); a, r, x = ivars('a', 'r', 'x'); i = L.v('i'); ids = L.arr('id_store').at
    y = RL[a][r]; l = v.lab.at(x)
    return [('position', And(0 <= i, i <= v.N))] + members_at(L, lambda a: SU[a + 1] - CT[i][a], v.C) + [
        ('points in their slots', forall([a, r], Imp(And(0 <= a, a < v.C, 0 <= r, r < CT[i][a]), And(0 <= y, y < i, v.lab.at(y) == a, CT[y][a] == r, ids(SU[a + 1] - 1 - r) == y)), [RL[a][r]])),
        ('points have a rank', forall([x], Imp(And(0 <= x, x < i, l != NA(L.c)), And(RL[l][CT[x][l]] == x, CT[x][l] < CT[i][l])), [l]))]


def _l3_g0(L):
    L.setg('RL', const('RL', AAI))


def _l3_step(L):
    v = L.c.v; i = L.p('i'); l = v.lab.at(i); CT, RL = L.g('CT'), L.g('RL')
    R2 = const('RL', AAI); a, r = ivars('a', 'r')
    L.assume_def(forall([a, r], R2[a][r] == Ite(And(l != NA(L.c), a == l, r == CT[i][l]), i, RL[a][r]), [R2[a][r]]), 'ghost')
    L.setg('RL', R2)
    L.by('the new point', And(Imp(And(l != NA(L.c)), And(0 <= CT[i][l], CT[i + 1][l] == CT[i][l] + 1, CT[i + 1][l] <= CT[v.N][l], SU_(L, l)))), None, C14, only=('a labelled point is counted', 'slots are ordered'))


def SU_(L, l):
    SU = L.g('SU')
    return And(0 <= l, l < L.c.v.C, SU[l] >= 0, SU[l] <= SU[l + 1], SU[l + 1] <= SU[L.c.v.C])


def _l3_exit(L):
    """the slots as one list"""
    v = L.c.v; SU, CT, RL = L.g('SU'), L.g('CT'), L.g('RL'); a, q, x, r = ivars('a', 'q', 'x', 'r'); ids = L.arr('id_store')
    ML, MI = const('ML', AI), const('MI', AI); l = v.lab.at(x)
    L.assume_def(forall([q], ML[q] == ids.at(q), [ML[q], ids.at(q)]), 'ghost')
    L.assume_def(forall([x], MI[x] == SU[l + 1] - 1 - CT[x][l], [MI[x]]), 'ghost')
    L.setg('ML', ML); L.setg('MI', MI)
    for nm, f in G(L.c, dict(SU=SU, ML=ML, MI=MI), v.lab.at, NA(L.c)).groups():
        if nm.startswith('slots hold'):
            L.by('rank of a slot', forall([a, q], Imp(And(0 <= a, a < v.C, SU[a] <= q, q < SU[a + 1]), And(ML[q] == RL[a][SU[a + 1] - 1 - q], 0 <= ML[q], ML[q] < v.N, v.lab.at(ML[q]) == a, CT[ML[q]][a] == SU[a + 1] - 1 - q)), [(SU[a + 1], ML[q])]), None, C14)
        L.by(nm, f, None, C14)


# loop 4: clusters; loop 5: pairs
RUN = {'TS': 'sum_dists', 'TN': 'avg_min_dist', 'TX': 'avg_max_dist', 'TW': 'avg_dist_weighted', 'TU': 'avg_dist_unweighted'}


def _l4(L):
    g = LG(L); hi = L.v('c'); f = lambda n: L.v('tmp_stats', n); v = L.c.v
    return [('position', And(0 <= hi, hi <= v.C))] + g.extremes(hi) + g.totals(hi) + [('running total: ' + n, f(n) == g.W[z][hi]) for z, n in RUN.items()] + g.range_(f('min_dist'), f('max_dist'), hi) + \
        [('counts stay', And(*[f(n) == L.e('tmp_stats', n) for n in FIELDS[:7]]))]


def _l4_g0(L):
    for n, s in WIT:
        if n in ('CN', 'CX', 'KN', 'KX', 'TS', 'TN', 'TX', 'TW', 'TU'):
            L.setg(n, z3.K(IS, z3.RealVal(0) if s == AR else I(0)))
    L.setg('ANY', I(-1)); L.setg('ANX', I(-1)); L.setg('kn', I(0)); L.setg('kx', I(0)); L.setg('lsum', z3.RealVal(0)); L.setg('lmin', z3.RealVal(0)); L.setg('lmax', z3.RealVal(0))


def _l4_head(L):
    g = LG(L); c = L.v('c'); n = L.arr('cluster_size').at(c); v = L.c.v
    L.lemma('size of the cluster', Imp(c < v.C, And(0 <= n, n <= v.N, n == g.size(c), n <= L.v('tmp_stats', 'max_cluster_size'))), C14)
    p = pm(L, c); L.lemma('slots of the cluster', Imp(c < v.C, And(Not(L.eng.isnull(p)), p.off == L.arr('id_store').p.off + L.g('SU')[c], L.g('SU')[c] >= 0, L.g('SU')[c] + n <= L.v('tmp_stats', 'num_assigned'))), C14)
    tri_size(L, n); tri_mono(L, n, L.v('tmp_stats', 'max_cluster_size'))
    L.assume_def(g.psum(c, I(1)) == g.D(c, I(0)), 'definition of the sum of distances')


def _l4_step(L):
    g = LG(L); c = L.p('c'); n = g.size(c); two = n >= 2; W = g.W
    put = lambda k, i, v: L.setg(k, z3.Store(W[k], i, v))
    mn, mx = L.p('tmp_stats', 'min_dist'), L.p('tmp_stats', 'max_dist')
    S, lo, hi = L.g('lsum'), L.g('lmin'), L.g('lmax'); t = TRI(n, n)
    add = {'TS': S, 'TN': lo, 'TX': hi, 'TW': FDIV(FMUL(I2D(n), S), I2D(t)), 'TU': FDIV(S, I2D(t))}
    for z in add:
        put(z, c + 1, Ite(two, FADD(W[z][c], add[z]), W[z][c]))
    put('CN', c, lo); put('CX', c, hi); put('KN', c, L.g('kn')); put('KX', c, L.g('kx'))
    kn, kx = L.g('kn'), L.g('kx'); k = z3.Int('k')
    L.by('extremes of this cluster', Imp(two, And(0 <= kn, kn < t, lo == g.D(c, kn), 0 <= kx, kx < t, hi == g.D(c, kx), lo >= 0, lo <= hi)), None, C14)
    L.by('none of its distances is beyond them', forall([k], Imp(And(two, 0 <= k, k < t), And(lo <= g.D(c, k), g.D(c, k) <= hi)), [PR(n, k)]), None, C14)
    g2 = LG(L)
    for nm, f in g2.totals(L.v('c')):
        L.by(nm, f, None, C14, only=(nm, 'ghost'))
    for nm, f in g2.extremes(L.v('c')):
        L.by(nm, f, None, C14, only=('extreme distances of a cluster occur in it', 'no distance of a cluster is beyond them', 'extremes of this cluster', 'none of its distances is beyond them', 'ghost'))
    L.setg('ANY', Ite(Or(n == 1, And(two, mn > lo)), c, W['ANY'])); L.setg('ANX', Ite(And(two, mx < hi), c, W['ANX']))
    for nm, f in LG(L).range_(L.v('tmp_stats', 'min_dist'), L.v('tmp_stats', 'max_dist'), L.v('c')):
        L.by(nm, f, None, C14, only=(nm, 'ghost', 'a single point counts as distance zero', 'extreme distances of a cluster occur in it'))


def _l5(L):
    g = LG(L); c = L.v('c'); d = L.v('d'); n = L.arr('cluster_size').at(c); k = z3.Int('k'); s = L.arr('dist_scratch').at
    kn, kx = L.g('kn'), L.g('kx'); lo, hi = L.v('cluster_min'), L.v('cluster_max')
    return [('position', And(1 <= d, d <= TRI(n, n))), ('sum so far', L.v('cluster_sum_dists') == g.psum(c, d)),
            ('smallest and largest so far', And(forall([k], Imp(And(0 <= k, k < d), And(lo <= s(k), s(k) <= hi)), [s(k)]), 0 <= kn, kn < d, lo == s(kn), 0 <= kx, kx < d, hi == s(kx)))]


def _l5_g0(L):
    g = LG(L); c = L.v('c'); n = L.arr('cluster_size').at(c); k = z3.Int('k'); s = L.arr('dist_scratch').at; t = TRI(n, n)
    ix = lambda k: And(0 <= PR(n, k), PR(n, k) < n, 0 <= PC(n, k), PC(n, k) < n)
    L.by('distances of the cluster', forall([k], Imp(And(0 <= k, k < t), And(s(k) == g.D(c, k), s(k) >= 0, ix(k))), [s(k)]), None, C14)
    L.by('distances of the cluster, by pair', forall([k], Imp(And(0 <= k, k < t), s(k) == g.D(c, k)), [PR(n, k)]), None, C14, only=('distances of the cluster', 'ghost'))
    L.setg('kn', I(0)); L.setg('kx', I(0))


def _l5_head(L):
    g = LG(L); c = L.v('c'); d = L.v('d')
    L.assume_def(g.psum(c, d + 1) == FADD(g.psum(c, d), g.D(c, d)), 'definition of the sum of distances')
    s = L.arr('dist_scratch').at
    L.lemma('next distance', Imp(d < TRI(g.size(c), g.size(c)), s(d) == g.D(c, d)), C14)


def _l5_step(L):
    d = L.p('d'); s = L.arr('dist_scratch').at
    L.setg('kn', Ite(L.p('cluster_min') > s(d), d, L.g('kn'))); L.setg('kx', Ite(L.p('cluster_max') < s(d), d, L.g('kx')))


def _l5_exit(L):
    L.setg('lsum', L.v('cluster_sum_dists')); L.setg('lmin', L.v('cluster_min')); L.setg('lmax', L.v('cluster_max'))


def _st_final(c, g, empty):
    if empty:
        v = c.v; SU = g.W['SU']; x, a = ivars('x', 'a')
        c.by('all clusters are empty', forall([a], Imp(And(0 <= a, a < v.C), And(g.size(a) == 0, c.st.ghosts['CT'][v.N][a] == 0)), [c.st.ghosts['CT'][v.N][a]]), None, C14)
        c.by('no labelled points', forall([x], Imp(And(0 <= x, x < v.N), v.lab.o(x) == NA(c)), [v.lab.o(x)]), None, C14)


reg('scc_get_clustering_stats', _st_pre, _st_post, loops={
    0: LS(_l0, ghosts=('CT', 'SU'), ghost0=_l0_g0, step=_l0_step, exit=_l0_exit),
    1: LS(_l1, ghosts=('PP', 'KMIN', 'KMAX'), ghost0=_l1_g0, step=_l1_step, exit=_l1_exit),
    2: LS(_l2),
    3: LS(_l3, ghosts=('RL',), head=_l3_head, ghost0=_l3_g0, step=_l3_step, exit=_l3_exit),
    4: LS(_l4, ghosts=('CN', 'CX', 'KN', 'KX', 'TS', 'TN', 'TX', 'TW', 'TU', 'ANY', 'ANX', 'kn', 'kx', 'lsum', 'lmin', 'lmax'), ghost0=_l4_g0, step=_l4_step, head=_l4_head),
    5: LS(_l5, ghosts=('kn', 'kx'), ghost0=_l5_g0, step=_l5_step, head=_l5_head, exit=_l5_exit)},
    props=('C14', 'C10', 'C11', 'C12', 'C16'))
