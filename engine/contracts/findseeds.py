"""nng_findseeds.c (C06): seeds are independent, have neighbours, and no further seed could be added"""
from .base import *
C6 = ('C06',)
AI = z3.ArraySort(IS, IS)
AB = z3.ArraySort(IS, BS)


def const(name, sort):
    return z3.Const('%s!%d' % (name, uid()), sort)


def ghost(L_or_c, name, sort):
    c = L_or_c
    return c.witness(name, sort) if c.producing() or name in c.st.ghosts else const('none', sort)


# ---------------------------------------------------------------- helpers
def _nb_pre(c):
    c.v.sv, c.v.t, c.v.h = dg_in(c, 'nng', heap=False)
    n = c.v.sv('vertices')
    s = 'v' if 'v' in c.args else 's'
    c.v.s = c.a(s)
    c.fact('a vertex', And(c.v.s >= 0, c.v.s < n))
    c.v.m = c.arr('marks', n, mod=(s == 's'))


def _nb_post(c):
    v, t, h, m = c.v.s, c.v.t, c.v.h, c.v.m; p = z3.Int('p')
    empty = t.at(v) == t.at(v + 1)
    none = forall([p], Imp(And(t.at(v) <= p, p < t.at(v + 1)), Not(m.at(h.at(p)))), [h.at(p)])

    def blocked():
        w = c.witness('blk', IS, lambda: c.st.ghosts.get('CUR', I(0)))
        c.fact('a marked neighbour', And(t.at(v) <= w, w < t.at(v + 1), m.at(h.at(w))), C6)
    return [('free', And(c.ret, Not(m.at(v)), Not(empty), none), None),
            ('marked', And(Not(c.ret), m.at(v)), None),
            ('no neighbours', And(Not(c.ret), Not(m.at(v)), empty), None),
            ('neighbour marked', And(Not(c.ret), Not(m.at(v)), Not(empty)), blocked)]


def _nb_inv(L):
    c = L.c; v, t, h, m = c.v.s, c.v.t, c.v.h, c.v.m; p = z3.Int('p'); cur = L.off('v_arc')
    return [('position', And(t.at(v) <= cur, cur <= t.at(v + 1), L.g('CUR') == cur)), ('passed neighbours', forall([p], Imp(And(t.at(v) <= p, p < cur), Not(m.at(h.at(p)))), [h.at(p)]))]


reg('iscc_fs_check_neighbors_marks', _nb_pre, _nb_post, loops={0: LoopSpec(_nb_inv, ghosts=('CUR',), ghost0=lambda L: L.setg('CUR', L.off('v_arc')), step=lambda L: L.setg('CUR', L.off('v_arc')))}, props=('C06', 'C12'))


def mark_facts(t, h, m, mo, s, hi, WP, n, seed):
    p, x = ivars('p', 'x')
    src = And(t(s) <= WP[x], WP[x] < hi, h(WP[x]) == x)
    if seed:
        src = Or(src, x == s)
    return [('neighbours marked', forall([p], Imp(And(t(s) <= p, p < hi), m(h(p))), [h(p)])),
            ('marks kept, only neighbours added', forall([x], Imp(And(0 <= x, x < n), And(Imp(mo(x), m(x)), Imp(m(x), Or(mo(x), src)))), [m(x)]))]


def _mk_post(c):
    s, t, h, m = c.v.s, c.v.t, c.v.h, c.v.m

    def body():
        WP = ghost(c, 'WP', AI)
        c.fact('seed marked', m.at(s), C6)
        for nm, f in mark_facts(t.at, h.at, m.at, m.o, s, t.at(s + 1), WP, c.v.sv('vertices'), True):
            c.fact(nm, f, C6)
    return [('marked', T, body)]


def _mk_inv(L):
    c = L.c; s, t, h, m = c.v.s, c.v.t, c.v.h, c.v.m; cur = L.off('s_arc')
    return [('position', And(t.at(s) <= cur, cur <= t.at(s + 1)))] + mark_facts(t.at, h.at, m.at, m.o, s, cur, L.g('WP'), c.v.sv('vertices'), False)


reg('iscc_fs_mark_seed_neighbors', _nb_pre, _mk_post,
    loops={0: LoopSpec(_mk_inv, ghosts=('WP',), ghost0=lambda L: L.setg('WP', const('WP', AI)),
                       step=lambda L: L.setg('WP', z3.Store(L.g('WP'), L.c.v.h.at(L.p('s_arc').off), L.p('s_arc').off)))}, props=('C06', 'C12'))


def _as_pre(c):
    sr = c.struct('seed_result', mod=True); c.v.sr = sr
    c.fact('seed list', And(sr('capacity') >= 1, sr('count') >= 0, sr('count') <= sr('capacity'), sr('capacity') <= (1 << 60), sr('count') <= c.const('SCC_CLABEL_MAX')))
    c.v.sd = c.arr(sr.loc('seeds'), sr('capacity'), mod=True, heap=True)


def _as_post(c):
    sr, sd = c.v.sr, c.v.sd; k = z3.Int('k'); n = sr.o('count')
    lim = c.const('SCC_CLABEL_MAX')

    def added():
        c.same(sr.loc('seeds'))
        c.fact('seed appended', And(sr('count') == n + 1, sd.at(n) == c.a('s'), forall([k], Imp(And(0 <= k, k < n), sd.at(k) == sd.o(k)), [sd.at(k)])), C6)

    def inplace():
        c.same(sr.loc('capacity')); added()

    def grown():
        c.resized(sd, sr('capacity'))
        c.fact('grown', And(sr('capacity') > n, sr('capacity') <= (1 << 60)), C6)
        added()

    def same():
        c.same(sr.loc('seeds'))
        c.fact('count kept', sr('count') == n, C6)
    full = n == sr.o('capacity')
    return [('added', And(c.ret == EC(c, 'OK'), n < lim, Not(full)), inplace),
            ('added after growing', And(c.ret == EC(c, 'OK'), n < lim, full), grown),
            ('error too large', And(c.ret == EC(c, 'TOO_LARGE_PROBLEM'), n == lim), same),
            ('error no memory', And(c.ret == EC(c, 'NO_MEMORY'), n < lim, full, oom(c)), same)]


reg('iscc_fs_add_seed', _as_pre, _as_post, props=('C06', 'C11', 'C12', 'C16'))


# ---------------------------------------------------------------- seeds
def seed_facts(n, t, h, sd, cnt, OWN, OWP, both=False):
    """OWN[x]: the seed whose closed neighbourhood contains x, or -1; OWP[x]: position of the arc from that seed to x, or -1 for the seed itself"""
    s, p, x = ivars('s', 'p', 'x')
    return [('seeds are vertices with neighbours', forall([s], Imp(And(0 <= s, s < cnt), And(sd(s) >= 0, sd(s) < n, t(sd(s)) < t(sd(s) + 1), OWN[sd(s)] == s)), [sd(s)])),
            ('neighbourhoods of seeds are disjoint', forall([s, p], Imp(And(0 <= s, s < cnt, t(sd(s)) <= p, p < t(sd(s) + 1)), OWN[h(p)] == s), [(sd(s), h(p))])),
            ('owners are seeds', forall([x], Imp(And(0 <= x, x < n, OWN[x] != -1), And(0 <= OWN[x], OWN[x] < cnt)), [OWN[x]])),
            ('owned vertices are the seed itself', forall([x], Imp(And(0 <= x, x < n, OWN[x] != -1, OWP[x] == -1), x == sd(OWN[x])), [OWP[x]] + ([OWN[x]] if both else []))),
            ('or in its neighbourhood', forall([x], Imp(And(0 <= x, x < n, OWN[x] != -1, OWP[x] != -1), And(t(sd(OWN[x])) <= OWP[x], OWP[x] < t(sd(OWN[x]) + 1), h(OWP[x]) == x)), [OWP[x]] + ([OWN[x]] if both else [])))]


def maximal(v, t, h, OWN, BLK):
    return Imp(t(v) < t(v + 1), Or(OWN[v] != -1, And(t(v) <= BLK[v], BLK[v] < t(v + 1), OWN[h(BLK[v])] != -1)))


def _fs_pre(c):
    c.v.sv, c.v.t, c.v.h = dg_in(c, 'nng', heap=False)
    n = c.v.sv('vertices')
    c.fact('has vertices and arcs', And(n > 1, c.v.t.at(n) > 0))
    c.v.out = c.struct('out_seeds', mod=True)
    c.fact('empty seed list', And(c.v.out('capacity') >= 1, c.v.out('capacity') <= (1 << 60), c.v.out('count') == 0))
    c.null(c.v.out.loc('seeds'))


def _fs_post(c):
    sv, t, h, out = c.v.sv, c.v.t, c.v.h, c.v.out; n = sv('vertices'); v = z3.Int('v')

    def ok():
        sd = c.fresh(out.loc('seeds'), out('capacity'))
        c.fact('count within the list', And(0 <= out('count'), out('count') <= out('capacity'), out('count') <= c.const('SCC_CLABEL_MAX'), out('capacity') <= (1 << 60)), C6)
        OWN, OWP, BLK = ghost(c, 'OWN', AI), ghost(c, 'OWP', AI), ghost(c, 'BLK', AI)
        for nm, f in seed_facts(n, t.at, h.at, sd.at, out('count'), OWN, OWP):
            c.fact(nm, f, C6 + ('C01',))
        c.fact('no vertex could be added', forall([v], Imp(And(0 <= v, v < n), maximal(v, t.at, h.at, OWN, BLK)), [t.at(v)]), C6)
    return [('ok', c.ret == EC(c, 'OK'), ok), ('error no memory', And(c.ret == EC(c, 'NO_MEMORY'), oom(c)), None),
            ('error too many', c.ret == EC(c, 'TOO_LARGE_PROBLEM'), None)]


from vc import AV as AV_


def sview(L):
    out = L.c.v.out
    p = out._rd(L.st, 'seeds')
    return AV_(L, p, dict(out.t.fields)['seeds'].to), out._rd(L.st, 'count'), out._rd(L.st, 'capacity')


def seed_inv(L, marks='marks'):
    c = L.c; n = c.v.sv('vertices'); sd, cnt, cap = sview(L); OWN, OWP = L.g('OWN'), L.g('OWP'); x = z3.Int('x'); m = L.arr(marks)
    return [('seed list', And(cnt >= 0, cnt <= cap, cap >= 1, cap <= (1 << 60), cnt <= c.const('SCC_CLABEL_MAX'), eq(L.eng.obj_len(L.st, sd.p), cap)))] + \
        seed_facts(n, c.v.t.at, c.v.h.at, sd.at, cnt, OWN, OWP) + \
        [('marks are the owned vertices', forall([x], Imp(And(0 <= x, x < n), m.at(x) == (OWN[x] != -1)), [m.at(x), OWN[x]]))]


def seed_g0(L):
    k = z3.Int('k')
    O = const('OWN', AI)
    L.assume_def(forall([k], O[k] == -1, [O[k]]), 'ghost')
    L.setg('OWN', O); L.setg('OWP', const('OWP', AI)); L.setg('BLK', const('BLK', AI))


def seed_step(L, v, marks='marks'):
    """after a vertex v was considered: owners follow the marks"""
    c = L.c; gs = L.st.ghosts; k = z3.Int('k')
    sd, cnt, cap = sview(L)
    pcnt = c.v.out._rd(L.prev, 'count')
    if L.eng.quick(L.st, cnt == pcnt + 1) or not (L.eng.quick(L.st, cnt == pcnt)):
        WP = gs.get('iscc_fs_mark_seed_neighbors.WP')
        if WP is None:
            return
        m = L.arr(marks); OWN, OWP = L.g('OWN'), L.g('OWP')
        O2, P2 = const('OWN', AI), const('OWP', AI)
        n = c.v.sv('vertices')
        new = And(0 <= k, k < n, m.at(k), OWN[k] == -1)
        L.assume_def(forall([k], O2[k] == Ite(new, pcnt, OWN[k]), [O2[k]]), 'ghost')
        L.assume_def(forall([k], P2[k] == Ite(new, Ite(k == v, I(-1), WP[k]), OWP[k]), [P2[k]]), 'ghost')
        L.setg('OWN', O2); L.setg('OWP', P2)
    elif 'iscc_fs_check_neighbors_marks.blk' in gs:
        L.setg('BLK', z3.Store(L.g('BLK'), v, gs['iscc_fs_check_neighbors_marks.blk']))


def _lex_inv(L):
    c = L.c; v = z3.Int('v')
    return seed_inv(L) + [('considered vertices', forall([v], Imp(And(0 <= v, v < L.v('v')), maximal(v, c.v.t.at, c.v.h.at, L.g('OWN'), L.g('BLK'))), [c.v.t.at(v)]))]


reg('iscc_findseeds_lexical', _fs_pre, _fs_post,
    loops={0: LoopSpec(_lex_inv, ghosts=('OWN', 'OWP', 'BLK'), ghost0=seed_g0, step=lambda L: seed_step(L, L.p('v')))},
    props=('C06', 'C01', 'C11', 'C12', 'C16'))


# ---------------------------------------------------------------- sorting by inwards arcs
from .check import CNT, count_step, count_0
from .dgops import row_facts, vc_arr


def _so_pre(c):
    c.v.sv, c.v.t, c.v.h = dg_in(c, 'nng', heap=False)
    n = c.v.sv('vertices')
    c.fact('has vertices', n > 1)
    c.v.out = c.struct('out_sort', mod=True)


def perm_facts(S, VI, n):
    """S is a permutation of 0..n-1 with inverse VI"""
    q, x = ivars('q', 'x')
    return [('every position holds a vertex', forall([q], Imp(And(0 <= q, q < n), And(0 <= S(q), S(q) < n, VI(S(q)) == q)), [S(q)])),
            ('every vertex has a position', forall([x], Imp(And(0 <= x, x < n), And(0 <= VI(x), VI(x) < n, S(VI(x)) == x)), [VI(x)]))]


def bucket_facts(S, IC, BI, lo, n, mx):
    """from position lo on: counts are at least b exactly from the start of bucket b on"""
    q, b = ivars('q', 'b')
    return [('buckets', forall([q, b], Imp(And(lo <= q, q < n, 0 <= b, b <= mx), (IC(S(q)) >= b) == (q >= BI(b))), [(S(q), BI(b))]))]


def _so_post(c):
    sv, t, h, out = c.v.sv, c.v.t, c.v.h, c.v.out; n = sv('vertices'); x = z3.Int('x')
    mk = c.a('make_indices')

    def ok():
        S = c.fresh(out.loc('sorted_vertices'), n)
        if c.eng.quick(c.st, mk):
            MX = c.witness('MX', IS) if c.producing() or 'MX' in c.st.ghosts else I(0)
            c.fact('bucket range', And(MX >= 0, MX <= c.const('ISCC_ARCINDEX_MAX')), C6)
            IC = c.fresh(out.loc('inwards_count'), n)
            VI = c.fresh(out.loc('vertex_index'), n)
            BI = c.fresh(out.loc('bucket_index'), MX + 1)
            c.ptrs_into(VI, S); c.ptrs_into(BI, S)
            H = h.raw()
            c.fact('inward arcs counted', forall([x], Imp(And(0 <= x, x < n), And(IC.at(x) == CNT(H, t.at(n), x), IC.at(x) >= 0, IC.at(x) <= MX)), [IC.at(x)]), C6)
            for nm, f in perm_facts(S.at, lambda k: VI.at(k).off, n) + bucket_facts(S.at, IC.at, lambda k: BI.at(k).off, I(0), n, MX):
                c.fact(nm, f, C6)
            c.fact('bucket starts', forall([x], Imp(And(0 <= x, x <= MX), BI.at(x).off <= n), [BI.at(x).off]), C6)
        elif c.eng.quick(c.st, Not(mk)):
            for f in ('inwards_count', 'vertex_index', 'bucket_index'):
                c.null(out.loc(f))
            V = ghost(c, 'VIX', AI)
            for nm, f in perm_facts(S.at, lambda k: V[k], n):
                c.fact(nm, f, C6)
        else:
            c.fact('index request decided', F, C6)
    return [('with indices', And(c.ret == EC(c, 'OK'), mk), ok), ('without indices', And(c.ret == EC(c, 'OK'), Not(mk)), ok),
            ('error no memory', And(c.ret == EC(c, 'NO_MEMORY'), oom(c)), None)]


def _icv(L):
    return vc_arr(L, L.c.v.out, 'inwards_count')


def _so0(L):
    c = L.c; n = c.v.sv('vertices'); cur = L.off('arc'); x = z3.Int('x'); IC = _icv(L); H = c.v.h.raw()
    return [('position', And(0 <= cur, cur <= c.v.t.at(n))),
            ('counted', forall([x], Imp(And(0 <= x, x < n), And(IC.at(x) == CNT(H, cur, x), IC.at(x) >= 0, IC.at(x) <= cur)), [IC.at(x)]))]


def _so1(L):
    c = L.c; IC = _icv(L); x = z3.Int('x'); mx = L.v('max_inwards_tmp')
    return [('maximum', And(mx >= 0, mx <= c.const('ISCC_ARCINDEX_MAX'), forall([x], Imp(And(0 <= x, x < L.v('v')), IC.at(x) <= mx), [IC.at(x)])))]


def _so2(L):
    c = L.c; IC = _icv(L); bc = L.arr('bucket_count'); mx = L.v('max_inwards'); SS = L.g('SS'); v = L.v('v'); b, i, j, k = ivars('b', 'i', 'j', 'k'); A = IC.raw()
    return [('bucket sums', And(SS[0] == 0, SS[mx + 1] == v, forall([b], Imp(And(0 <= b, b <= mx), And(SS[b + 1] == SS[b] + bc.at(b), bc.at(b) >= 0, bc.at(b) == CNT(A, v, b))), [bc.at(b), CNT(A, v, b)]))),
            ('sums ordered', forall([i, j], Imp(And(0 <= i, i <= j, j <= mx + 1), SS[i] <= SS[j]), [(SS[i], SS[j])])),
            ('counts not negative', forall([k, b], Imp(And(0 <= k, k <= v, 0 <= b, b <= mx), And(CNT(A, k, b) >= 0, CNT(A, k, b) <= CNT(A, v, b))), [CNT(A, k, b)]))]


def _so2_g0(L):
    k = z3.Int('k'); SS = const('SS', AI)
    L.assume_def(forall([k], SS[k] == 0, [SS[k]]), 'ghost')
    L.setg('SS', SS); L.setg('MX', L.v('max_inwards'))
    count_0(L.st, _icv(L).raw())


def _so2_step(L):
    v = L.p('v'); k = z3.Int('k'); SS = L.g('SS'); S2 = const('SS', AI); IC = _icv(L)
    L.assume_def(forall([k], S2[k] == SS[k] + Ite(k > IC.at(v), I(1), I(0)), [S2[k]]), 'ghost')
    L.setg('SS', S2)
    count_step(L.st, IC.raw(), v)


def _so3(L):
    c = L.c; BI = vc_arr(L, c.v.out, 'bucket_index'); SS = L.g('SS'); b = L.v('b'); k = z3.Int('k')
    return [('bucket ends', forall([k], Imp(And(0 <= k, k < b), And(Not(BI.at(k).null), BI.at(k).off == SS[k + 1])), [BI.at(k).off])),
            ('positions of buckets', row_facts(lambda k: SS[k], SS[b], L.g('RB'), b)), ('bucket', And(b >= 1, b <= L.v('max_inwards') + 1))]


def _rb(L, SS, RB, b):
    q = z3.Int('q'); R2 = const('RB', AI)
    L.assume_def(forall([q], R2[q] == Ite(And(SS[b] <= q, q < SS[b + 1]), b, RB[q]), [R2[q]]), 'ghost')
    L.setg('RB', R2)


def _so3_g0(L):
    L.setg('RB', const('RB', AI))
    _rb(L, L.g('SS'), L.g('RB'), I(0))


def _so4(L, idx):
    c = L.c; n = c.v.sv('vertices'); out = c.v.out; v = L.v('v'); IC = _icv(L); A = IC.raw(); mx = L.g('MX')
    BI = vc_arr(L, out, 'bucket_index'); S = vc_arr(L, out, 'sorted_vertices'); SS, RB, VIX = L.g('SS'), L.g('RB'), L.g('VIX'); b, q, x = ivars('b', 'q', 'x')
    r = [('vertices left', And(v >= 0, v <= n)),
         ('next cells', forall([b], Imp(And(0 <= b, b <= mx), And(Not(BI.at(b).null), BI.at(b).off == SS[b] + CNT(A, v, b), SS[b] <= BI.at(b).off, BI.at(b).off <= SS[b + 1])), [BI.at(b).off])),
         ('filled cells', forall([q], Imp(And(0 <= q, q < n, BI.at(RB[q]).off <= q), And(v <= S.at(q), S.at(q) < n, VIX[S.at(q)] == q, IC.at(S.at(q)) == RB[q])), [S.at(q)])),
         ('placed vertices', forall([x], Imp(And(v <= x, x < n), And(BI.at(IC.at(x)).off <= VIX[x], VIX[x] < SS[IC.at(x) + 1], S.at(VIX[x]) == x)), [VIX[x]]))]
    if idx:
        VI = vc_arr(L, out, 'vertex_index')
        r.append(('vertex index', forall([x], Imp(And(v <= x, x < n), And(Not(VI.at(x).null), VI.at(x).off == VIX[x])), [VI.at(x).off])))
    return r


def _so4_head(L):
    count_step(L.st, _icv(L).raw(), L.v('v') - 1)


def _so4_step(L):
    c = L.c; v = L.v('v'); BI = vc_arr(L, c.v.out, 'bucket_index'); IC = _icv(L)
    L.setg('VIX', z3.Store(L.g('VIX'), v, BI.at(IC.at(v)).off))


def _so4_exit(L):
    count_0(L.st, _icv(L).raw())


reg('iscc_fs_sort_by_inwards', _so_pre, _so_post,
    loops={0: LoopSpec(_so0, ghost0=lambda L: count_0(L.st, L.c.v.h.raw()), step=lambda L: count_step(L.st, L.c.v.h.raw(), L.p('arc').off)),
           1: LoopSpec(_so1), 2: LoopSpec(_so2, ghosts=('SS',), ghost0=_so2_g0, step=_so2_step),
           3: LoopSpec(_so3, ghosts=('RB',), ghost0=_so3_g0, step=lambda L: _rb(L, L.g('SS'), L.g('RB'), L.p('b'))),
           4: LoopSpec(lambda L: _so4(L, True), ghosts=('VIX',), ghost0=lambda L: L.setg('VIX', const('VIX', AI)), head=_so4_head, step=_so4_step, exit=_so4_exit),
           5: LoopSpec(lambda L: _so4(L, False), ghosts=('VIX',), ghost0=lambda L: L.setg('VIX', const('VIX', AI)), head=_so4_head, step=_so4_step, exit=_so4_exit)},
    props=('C06', 'C11', 'C12', 'C16'))


# ---------------------------------------------------------------- decreasing a count in the sorted order
def _de_pre(c):
    n = c.length('current_pos'); c.v.n = n
    nb = c.length('bucket_index')
    if c.producing():
        c.v.cur = z3.Int('cur!%d' % uid())
    else:
        c.v.cur = c.a('current_pos').off
    c.fact('sizes', And(n < (1 << 62), nb < (1 << 62)))
    S = c.arr('current_pos', n, mod=True, at=c.v.cur)
    IC = c.arr('inwards_count', n, mod=True)
    VI = c.arr('vertex_index', n, mod=True)
    BI = c.arr('bucket_index', nb, mod=True)
    c.ptrs_into(VI, S); c.ptrs_into(BI, S)
    c.v.S, c.v.IC, c.v.VI, c.v.BI, c.v.mx = S, IC, VI, BI, nb - 1
    v = c.a('v_to_decrease')
    c.fact('position', And(0 <= c.v.cur, c.v.cur < n))
    for nm, f in _de_state(c, 'at'):
        c.fact(nm, f)
    c.fact('a vertex still to come, with a positive count', And(0 <= v, v < n, VI.at(v).off > c.v.cur, IC.at(v) >= 1))


def _de_state(c, st):
    S, IC, VI, BI, n, mx, cur = c.v.S, c.v.IC, c.v.VI, c.v.BI, c.v.n, c.v.mx, c.v.cur; x = z3.Int('x')
    return perm_facts(S.at, lambda k: VI.at(k).off, n) + bucket_facts(S.at, IC.at, lambda k: BI.at(k).off, cur + 1, n, mx) + [
        ('counts in range', forall([x], Imp(And(0 <= x, x < n), And(IC.at(x) >= 0, IC.at(x) <= mx)), [IC.at(x)])),
        ('bucket starts', forall([x], Imp(And(0 <= x, x <= mx), And(BI.at(x).off >= 0, BI.at(x).off <= n)), [BI.at(x).off]))]


def _de_post(c):
    S, IC, VI, BI, n, cur = c.v.S, c.v.IC, c.v.VI, c.v.BI, c.v.n, c.v.cur; x, q = ivars('x', 'q'); v = c.a('v_to_decrease')

    def body():
        c.ptrs_into(VI, S); c.ptrs_into(BI, S)
        for nm, f in _de_state(c, 'at'):
            c.fact(nm, f, C6)
        c.fact('passed positions kept', forall([q], Imp(And(0 <= q, q <= cur), S.at(q) == S.o(q)), [S.at(q)]), C6)
        c.fact('only this count decreased', forall([x], Imp(And(0 <= x, x < n), IC.at(x) == IC.o(x) - Ite(x == v, I(1), I(0))), [IC.at(x)]), C6)
        c.fact('vertices to come are the same', forall([x], Imp(And(0 <= x, x < n), And((VI.at(x).off > cur) == (VI.o(x).off > cur), Imp(VI.o(x).off <= cur, VI.at(x).off == VI.o(x).off))), [VI.at(x).off]), C6)
    return [('moved', T, body)]


reg('iscc_fs_decrease_v_in_sort', _de_pre, _de_post, props=('C06', 'C12'))


# ---------------------------------------------------------------- seeds in order of inward arcs
NC = z3.Function('arcs_left', AB, AI, IS, IS, IS)   # NC(D, H, i, w): positions p < i with H[p] == w and not D[p]


def _nc_lemmas():
    D, D2 = z3.Consts('D D2', AB); H = z3.Const('H', AI); i, w, p, q = z3.Ints('i w p q')

    def d0(X):
        return NC(X, H, 0, w) == 0

    def ds(X):
        return NC(X, H, i + 1, w) == NC(X, H, i, w) + z3.If(z3.And(H[i] == w, z3.Not(X[i])), 1, 0)
    st = z3.And(z3.Not(D[p]), z3.ForAll([q], D2[q] == z3.Or(D[q], q == p)))

    def claim(k):
        return z3.And(NC(D2, H, k, w) == NC(D, H, k, w) - z3.If(z3.And(p < k, H[p] == w), 1, 0), NC(D2, H, k, w) >= 0)
    proved('retiring an arc', z3.Implies(z3.And(st, p >= 0, d0(D), d0(D2)), claim(0)), z3.Implies(z3.And(st, i >= 0, ds(D), ds(D2), claim(i)), claim(i + 1)))

    def same(k):
        return NC(D, H, k, w) == CNT(H, k, w)
    none = z3.ForAll([q], z3.Not(D[q]))
    proved('no arc retired', z3.Implies(z3.And(none, d0(D), CNT(H, 0, w) == 0), same(0)),
           z3.Implies(z3.And(none, i >= 0, ds(D), CNT(H, i + 1, w) == CNT(H, i, w) + z3.If(H[i] == w, 1, 0), same(i)), same(i + 1)))


def retire(L, p, H, m):
    """mark arc p as passed; consequence of the induction above"""
    _nc_lemmas()
    D = L.g('D'); w = z3.Int('w'); ok = And(0 <= p, p < m, Not(D[p]))
    L.setg('D', z3.Store(D, p, T)); D2 = L.g('D')
    f = Imp(ok, And(NC(D2, H, m, w) == NC(D, H, m, w) - Ite(H[p] == w, I(1), I(0)), NC(D2, H, m, w) >= 0))
    L.assume_def(forall([w], f, [NC(D2, H, m, w)]), 'lemma: retiring an arc')
    L.assume_def(forall([w], f, [NC(D, H, m, w)]), 'lemma: retiring an arc')


def one_left(L, p, H, m):
    """an arc not passed yet is counted"""
    _nc_lemmas()
    D = L.g('D')
    L.assume_def(Imp(And(0 <= p, p < m, Not(D[p])), NC(D, H, m, H[p]) >= 1), 'lemma: retiring an arc')


def none_retired(L, H, m):
    _nc_lemmas()
    D = const('D', AB); q, w = ivars('q', 'w')
    L.assume_def(forall([q], Not(D[q]), [D[q]]), 'ghost')
    L.assume_def(forall([w], NC(D, H, m, w) == CNT(H, m, w), [NC(D, H, m, w)]), 'lemma: no arc retired')
    L.setg('D', D)


def _iw_pre(c):
    _fs_pre(c)
    t, h, n = c.v.t, c.v.h, c.v.sv('vertices'); v, p, q = ivars('v', 'p', 'q')
    if c.mode == 'verify':
        c.fact('case', c.a('updating') == B(c.variant['upd']))
        c.v.upd = c.variant['upd']
        if c.v.upd:
            c.v.RO = rows_exist(c.st, t.at, n)
    c.fact('no arc is repeated (when counts are updated)', Imp(c.a('updating'), no_repeats(t.at, h.at, n)))


def no_repeats(t, h, n):
    v, p, q = ivars('v', 'p', 'q')
    return forall([v, p, q], Imp(And(0 <= v, v < n, t(v) <= p, p < q, q < t(v + 1)), h(p) != h(q)), [(t(v), h(p), h(q))])


def sort_views(L):
    return [L.arr('sort', f) for f in ('sorted_vertices', 'inwards_count', 'vertex_index', 'bucket_index')]


def sort_inv(L, lo, H, m):
    n = L.c.v.sv('vertices'); S, IC, VI, BI = sort_views(L); x = z3.Int('x'); mx = L.eng.obj_len(L.st, BI.p) - 1; D = L.g('D')
    k = z3.Int('k')

    def ptrs(A, nn):
        return forall([k], Imp(And(0 <= k, k < nn), And(Not(A.at(k).null), A.at(k).off >= 0)), [A.at(k).off])
    return [('pointers into the order', And(ptrs(VI, n), ptrs(BI, mx + 1)))] + perm_facts(S.at, lambda k: VI.at(k).off, n) + bucket_facts(S.at, IC.at, lambda k: BI.at(k).off, lo, n, mx) + [
        ('counts in range', forall([x], Imp(And(0 <= x, x < n), And(IC.at(x) >= 0, IC.at(x) <= mx)), [IC.at(x)])),
        ('bucket starts', forall([x], Imp(And(0 <= x, x <= mx), And(BI.at(x).off >= 0, BI.at(x).off <= n)), [BI.at(x).off])),
        ('counts cover the arcs left', forall([x], Imp(And(0 <= x, x < n), And(IC.at(x) >= NC(D, H, m, x), NC(D, H, m, x) >= 0)), [IC.at(x)]))]


def _iw0(L):
    c = L.c; n = c.v.sv('vertices'); q, p = ivars('q', 'p'); cur = L.off('sorted_v'); S = L.arr('sort', 'sorted_vertices'); t = c.v.t
    r = [('position', And(0 <= cur, cur <= n))] + seed_inv(L) + [('considered vertices', forall([q], Imp(And(0 <= q, q < cur), maximal(S.at(q), t.at, c.v.h.at, L.g('OWN'), L.g('BLK'))), [S.at(q)]))]
    if c.v.upd:
        VI = L.arr('sort', 'vertex_index'); D, RO, OWN = L.g('D'), c.v.RO, L.g('OWN')
        r += sort_inv(L, cur, c.v.h.raw(), t.at(n))
        r += [('retired arcs start at passed or owned vertices', forall([p], Imp(And(0 <= p, p < t.at(n), D[p]), Or(VI.at(RO[p]).off < cur, OWN[RO[p]] != -1)), [D[p]]))]
    return r


def _iw0_g0(L):
    seed_g0(L)
    if L.c.v.upd:
        none_retired(L, L.c.v.h.raw(), L.c.v.t.at(L.c.v.sv('vertices')))


def _iw0_step(L):
    S = L.arr('sort', 'sorted_vertices')
    seed_step(L, S.at(L.p('sorted_v').off))


def kept_since(L, cur):
    """passed positions stay; vertices to come stay so"""
    n = L.c.v.sv('vertices'); S, IC, VI, BI = sort_views(L); q, x = ivars('q', 'x')
    return [('passed positions kept', forall([q], Imp(And(0 <= q, q <= cur), S.at(q) == S.ent(q)), [S.at(q)])),
            ('vertices to come are the same', forall([x], Imp(And(0 <= x, x < n), And((VI.at(x).off > cur) == (VI.ent(x).off > cur), Imp(VI.ent(x).off <= cur, VI.at(x).off == VI.ent(x).off))), [VI.at(x).off]))]


def _iw1(L):
    c = L.c; t, h, n = c.v.t, c.v.h, c.v.sv('vertices'); cur = L.off('sorted_v'); S = L.arr('sort', 'sorted_vertices'); s = S.at(cur); a = L.off('v_arc'); p = z3.Int('p')
    D, D0, AW, RO = L.g('D'), L.entry.ghosts['D'], L.g('AW'), c.v.RO
    return [('position', And(t.at(s) <= a, a <= t.at(s + 1)))] + sort_inv(L, cur + 1, h.raw(), t.at(n)) + kept_since(L, cur) + [
        ('newly retired arcs start at passed neighbours', forall([p], Imp(And(0 <= p, p < t.at(n), D[p]), Or(D0[p], And(t.at(s) <= AW[p], AW[p] < a, h.at(AW[p]) == RO[p]))), [D[p]]))]


def _iw1_step(L):
    c = L.c; p = z3.Int('p'); A, A2 = L.g('AW'), const('AW', AI); a = L.p('v_arc').off
    L.assume_def(forall([p], A2[p] == Ite(c.v.RO[p] == c.v.h.at(a), a, A[p]), [A2[p]]), 'ghost')
    L.setg('AW', A2)


def _iw2(L, u_, name):
    c = L.c; t, h, n = c.v.t, c.v.h, c.v.sv('vertices'); cur = L.off('sorted_v'); b = L.off(name); p = z3.Int('p'); u = u_(L)
    D, D0, RO = L.g('D'), L.entry.ghosts['D'], c.v.RO
    return [('position', And(t.at(u) <= b, b <= t.at(u + 1)))] + sort_inv(L, cur + 1, h.raw(), t.at(n)) + kept_since(L, cur) + [
        ('arcs ahead are not retired', forall([p], Imp(And(b <= p, p < t.at(u + 1)), Not(D[p])), [D[p]])),
        ('newly retired arcs are of this row', forall([p], Imp(And(0 <= p, p < t.at(n), D[p]), Or(D0[p], RO[p] == u)), [D[p]]))]


def _iw2_step(L, name):
    c = L.c
    retire(L, L.p(name).off, c.v.h.raw(), c.v.t.at(c.v.sv('vertices')))


def _iw2_head(L, name):
    c = L.c
    one_left(L, L.off(name), c.v.h.raw(), c.v.t.at(c.v.sv('vertices')))


def _iw0_exit(L):
    c = L.c; v = z3.Int('v'); S = L.arr('sort', 'sorted_vertices')
    VI = (lambda k: L.arr('sort', 'vertex_index').at(k).off) if c.v.upd else (lambda k: L.g('iscc_fs_sort_by_inwards.VIX')[k])
    L.lemma('all vertices considered', forall([v], Imp(And(0 <= v, v < c.v.sv('vertices'), L.off('sorted_v') == c.v.sv('vertices')), And(S.at(VI(v)) == v, maximal(v, c.v.t.at, c.v.h.at, L.g('OWN'), L.g('BLK')))), [c.v.t.at(v)]), C6)


_u2 = lambda L: L.c.v.h.at(L.off('v_arc'))
_u3 = lambda L: L.arr('sort', 'sorted_vertices').at(L.off('sorted_v'))
r = reg('iscc_findseeds_inwards', _iw_pre, _fs_post,
    loops={0: LoopSpec(_iw0, ghosts=('OWN', 'OWP', 'BLK', 'D'), ghost0=_iw0_g0, step=_iw0_step, exit=_iw0_exit),
           1: LoopSpec(_iw1, ghosts=('D', 'AW'), ghost0=lambda L: L.setg('AW', const('AW', AI)), step=_iw1_step),
           2: LoopSpec(lambda L: _iw2(L, _u2, 'v_arc_arc'), ghosts=('D',), head=lambda L: _iw2_head(L, 'v_arc_arc'), step=lambda L: _iw2_step(L, 'v_arc_arc')),
           3: LoopSpec(lambda L: _iw2(L, _u3, 'v_arc'), ghosts=('D',), head=lambda L: _iw2_head(L, 'v_arc'), step=lambda L: _iw2_step(L, 'v_arc'))},
    props=('C06', 'C01', 'C11', 'C12', 'C16'))
r.variants = [{'upd': False}, {'upd': True}]


# ---------------------------------------------------------------- dispatch
SM = ('LEXICAL', 'INWARDS_ORDER', 'INWARDS_UPDATING', 'EXCLUSION_ORDER', 'EXCLUSION_UPDATING')


def _se_pre(c):
    _fs_pre(c)
    m = c.a('seed_method')
    c.fact('a seed method', Or(*[m == c.const('SCC_SM_' + x) for x in SM]))
    c.fact('no arc is repeated (when counts are updated)', Imp(m == c.const('SCC_SM_INWARDS_UPDATING'), no_repeats(c.v.t.at, c.v.h.at, c.v.sv('vertices'))))


def _se_post(c):
    r = _fs_post(c)
    for g in ('OWN', 'OWP', 'BLK'):     # the witnesses are those of the method called
        if not c.producing() and g not in c.st.ghosts:
            for k in list(c.st.ghosts):
                if k.endswith('.' + g) and k.startswith('iscc_findseeds_'):
                    c.st.ghosts = dict(c.st.ghosts); c.st.ghosts[g] = c.st.ghosts[k]
    return r


reg('iscc_find_seeds', _se_pre, _se_post, props=('C06', 'C01', 'C11', 'C12', 'C16'))
