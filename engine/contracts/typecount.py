"""nng_core.c: counting data points by type and sorting them into one group per type (C02, C10)"""
from .base import *
from .findseeds import const, ghost
from .check import CNT, count_step, count_0
from .dgops import row_facts, vc_arr, AI
CT = ('C02', 'C10')


def _tc_pre(c):
    v = c.v; i = z3.Int('i')
    v.N, v.k, v.nt = c.a('num_data_points'), c.a('size_constraint'), c.a('num_types')
    c.fact('numbers', And(v.N >= 2, v.N <= c.const('ISCC_POINTINDEX_MAX'), v.k >= 2, v.nt >= 2, v.nt <= 65535))
    v.tc = c.arr('type_constraints', v.nt); v.tl = c.arr('type_labels', v.N)
    c.fact('type labels', forall([i], Imp(And(0 <= i, i < v.N), And(0 <= v.tl.at(i), v.tl.at(i) < v.nt)), [v.tl.at(i)]))
    v.out = c.struct('out_type_result', mod=True)


def sums(SS, nt, size):
    """SS[T]: number of points of the types before T"""
    i, j, b = ivars('i', 'j', 'b')
    return [('groups follow each other', And(SS[0] == 0, forall([b], Imp(And(0 <= b, b < nt), And(SS[b + 1] == SS[b] + size(b), size(b) >= 0)), [size(b)]))),
            ('groups ordered', forall([i, j], Imp(And(0 <= i, i <= j, j <= nt), SS[i] <= SS[j]), [(SS[i], SS[j])]))]


def constraint_sums(TS, tc, hi):
    b = z3.Int('b')
    return [('sums of constraints', And(TS[0] == 0, forall([b], Imp(And(0 <= b, b < hi), And(TS[b + 1] == TS[b] + tc(b), TS[b] >= 0)), [tc(b)])))]


def _tc_post(c):
    v = c.v; N, nt = v.N, v.nt; tl, tc = v.tl.at, v.tc.at; L_ = v.tl.raw(); T_, q, x = ivars('T', 'q', 'x')
    cnt = lambda T: CNT(L_, N, T)

    def ok():
        out = v.out
        gs = c.fresh(out.loc('type_group_size'), nt); st = c.fresh(out.loc('point_store'), N); tg = c.fresh(out.loc('type_groups'), nt)
        c.ptrs_into(tg, st)
        TS, SS, VIX = ghost(c, 'TS', AI), ghost(c, 'SS', AI), ghost(c, 'VIX', AI)
        c.fact('group sizes', forall([T_], Imp(And(0 <= T_, T_ < nt), And(gs.at(T_) == cnt(T_), tc(T_) <= gs.at(T_))), [gs.at(T_)]), CT)
        for nm, f in constraint_sums(TS, tc, nt) + sums(SS, nt, gs.at):
            c.fact(nm, f, CT)
        c.fact('sum of the constraints', And(out('sum_type_constraints') == TS[nt], TS[nt] <= v.k, SS[nt] == N), CT)
        c.fact('group starts', forall([T_], Imp(And(0 <= T_, T_ < nt), tg.at(T_).off == SS[T_]), [tg.at(T_).off]), CT)
        c.fact('points of a group', forall([T_, q], Imp(And(0 <= T_, T_ < nt, SS[T_] <= q, q < SS[T_ + 1]), And(0 <= st.at(q), st.at(q) < N, tl(st.at(q)) == T_, VIX[st.at(q)] == q)), [(SS[T_], st.at(q))]), CT)
        c.fact('places of points', forall([x], Imp(And(0 <= x, x < N), And(SS[tl(x)] <= VIX[x], VIX[x] < SS[tl(x) + 1], st.at(VIX[x]) == x)), [VIX[x]]), CT)

    def few():
        w = c.witness('type', IS, lambda: c.st.ghosts['type'])
        c.fact('a type has fewer points than its constraint', And(0 <= w, w < nt, cnt(w) < tc(w)), CT)

    def over():
        TS = ghost(c, 'TS', AI)
        for nm, f in constraint_sums(TS, tc, nt):
            c.fact(nm, f, CT)
        c.fact('constraints above the size constraint', TS[nt] > v.k, CT)
    return [('ok', c.ret == EC(c, 'OK'), ok), ('error no memory', And(c.ret == EC(c, 'NO_MEMORY'), oom(c)), None),
            ('error no solution', c.ret == EC(c, 'NO_SOLUTION'), few), ('error invalid', c.ret == EC(c, 'INVALID_INPUT'), over)]


def _f(L, f):
    return vc_arr(L, L.c.v.out, f)


def _t0(L):
    c = L.c; v = c.v; i = L.v('i'); gs = _f(L, 'type_group_size'); A = v.tl.raw(); SS = L.g('SS'); b, a, j, k = ivars('b', 'a', 'j', 'k')
    return [('counted', forall([b], Imp(And(0 <= b, b < v.nt), And(gs.at(b) == CNT(A, i, b), gs.at(b) >= 0)), [gs.at(b), CNT(A, i, b)])), ('position', And(0 <= i, i <= v.N)),
            ('sums', And(SS[0] == 0, SS[v.nt] == i, forall([b], Imp(And(0 <= b, b < v.nt), SS[b + 1] == SS[b] + gs.at(b)), [gs.at(b)]))),
            ('sums ordered', forall([a, j], Imp(And(0 <= a, a <= j, j <= v.nt), SS[a] <= SS[j]), [(SS[a], SS[j])])),
            ('counts not negative', forall([k, b], Imp(And(0 <= k, k <= i, 0 <= b, b < v.nt), And(CNT(A, k, b) >= 0, CNT(A, k, b) <= CNT(A, i, b))), [CNT(A, k, b)]))]


def _t0_g0(L):
    k = z3.Int('k'); SS = const('SS', AI)
    L.assume_def(forall([k], SS[k] == 0, [SS[k]]), 'ghost')
    L.setg('SS', SS); count_0(L.st, L.c.v.tl.raw())


def _t0_head(L):
    SS = L.g('SS'); v = L.c.v; i = L.v('i'); x = v.tl.at(i)
    gs = _f(L, 'type_group_size').at
    L.by('a count is no more than the points so far', Imp(i < v.N, And(gs(x) <= i, gs(x) >= 0)), None, CT, only=['type labels', 'sums', 'sums ordered', 'counted'])


def _t0_step(L):
    i = L.p('i'); k = z3.Int('k'); SS = L.g('SS'); S2 = const('SS', AI); x = L.c.v.tl.at(i)
    L.assume_def(forall([k], S2[k] == SS[k] + Ite(k > x, I(1), I(0)), [S2[k]]), 'ghost')
    L.setg('SS', S2); count_step(L.st, L.c.v.tl.raw(), i)


def _t1(L):
    c = L.c; v = c.v; i = L.v('i'); gs = _f(L, 'type_group_size'); TS, SS = L.g('TS'), L.g('SS'); b = z3.Int('b'); s = v.out._rd(L.st, 'sum_type_constraints')
    return [('type', And(0 <= i, i <= v.nt))] + constraint_sums(TS, v.tc.at, i) + [
        ('enough points of the types so far', forall([b], Imp(And(0 <= b, b < i), v.tc.at(b) <= gs.at(b)), [gs.at(b)])),
        ('sum so far', And(s == TS[i], 0 <= s, s <= SS[i], SS[i] <= v.N))]


def _t1_g0(L):
    L.setg('TS', z3.Store(const('TS', AI), I(0), I(0)))


def _t1_head(L):
    L.setg('type', L.v('i'))
    v = L.c.v; i = L.v('i'); SS = L.g('SS'); gs = _f(L, 'type_group_size').at
    L.by('points of the types so far', Imp(i < v.nt, And(SS[i + 1] == SS[i] + gs(i), gs(i) >= 0, SS[i + 1] <= SS[v.nt], SS[v.nt] == v.N)), None, CT, only=['sums', 'sums ordered', 'counted'])


def _t1_step(L):
    i = L.p('i'); TS = L.g('TS')
    L.setg('TS', z3.Store(TS, i + 1, TS[i] + L.c.v.tc.at(i)))


def _t2(L):
    c = L.c; v = c.v; tg = _f(L, 'type_groups'); SS = L.g('SS'); i = L.v('i'); k = z3.Int('k')
    return [('type', And(1 <= i, i <= v.nt)), ('group ends', forall([k], Imp(And(0 <= k, k < i), And(Not(tg.at(k).null), tg.at(k).off == SS[k + 1])), [tg.at(k).off])),
            ('groups of positions', row_facts(lambda k: SS[k], SS[i], L.g('RB'), i))]


def _rb(L, b):
    q = z3.Int('q'); SS, RB = L.g('SS'), L.g('RB'); R2 = const('RB', AI)
    L.assume_def(forall([q], R2[q] == Ite(And(SS[b] <= q, q < SS[b + 1]), b, RB[q]), [R2[q]]), 'ghost')
    L.setg('RB', R2)


def _t2_g0(L):
    SS = L.g('SS'); v = L.c.v; gs = _f(L, 'type_group_size').at
    L.by('first group', And(SS[1] == gs(I(0)), SS[1] >= 0, SS[1] <= SS[v.nt]), None, CT, only=['sums', 'sums ordered', 'counted'])
    L.setg('RB', const('RB', AI)); _rb(L, I(0))


def _t2_head(L):
    v = L.c.v; i = L.v('i'); SS = L.g('SS'); gs = _f(L, 'type_group_size').at; tg = _f(L, 'type_groups').at
    L.by('next group', Imp(i < v.nt, And(SS[i + 1] == SS[i] + gs(i), gs(i) >= 0, SS[i] >= 0, SS[i + 1] <= SS[v.nt], tg(i - 1).off == SS[i], Not(tg(i - 1).null))), None, CT, only=['sums', 'sums ordered', 'counted', 'group ends'])


def _t3(L):
    c = L.c; v = c.v; i = L.v('i'); tg = _f(L, 'type_groups').at; S = _f(L, 'point_store').at; SS, RB, VIX = L.g('SS'), L.g('RB'), L.g('VIX'); A = v.tl.raw(); tl = v.tl.at; b, q, x = ivars('b', 'q', 'x')
    return [('position', And(0 <= i, i <= v.N)),
            ('next cells', forall([b], Imp(And(0 <= b, b < v.nt), And(Not(tg(b).null), tg(b).off == SS[b + 1] - CNT(A, i, b), SS[b] <= tg(b).off, tg(b).off <= SS[b + 1])), [tg(b).off])),
            ('filled cells', forall([q], Imp(And(0 <= q, q < v.N, tg(RB[q]).off <= q), And(0 <= S(q), S(q) < i, VIX[S(q)] == q, tl(S(q)) == RB[q])), [S(q)])),
            ('placed points', forall([x], Imp(And(0 <= x, x < i), And(tg(tl(x)).off <= VIX[x], VIX[x] < SS[tl(x) + 1], S(VIX[x]) == x)), [VIX[x]]))]


def _t3_g0(L):
    L.setg('VIX', const('VIX', AI)); count_0(L.st, L.c.v.tl.raw())


def _t3_head(L):
    v = L.c.v; i = L.v('i'); A = v.tl.raw(); x = v.tl.at(i); SS = L.g('SS'); more = i < v.N; gs = _f(L, 'type_group_size').at; tg = _f(L, 'type_groups').at; RB = L.g('RB'); q = z3.Int('q')
    count_step(L.st, A, i)
    L.by('a point to come is counted', Imp(more, And(CNT(A, i + 1, x) == CNT(A, i, x) + 1, CNT(A, i + 1, x) <= CNT(A, v.N, x), gs(x) == CNT(A, v.N, x), SS[x + 1] == SS[x] + gs(x))), None, CT, only=['type labels', 'counted', 'sums', 'counts not negative', 'definition of count'])
    L.by('room for the point', Imp(more, And(SS[x] < tg(x).off, SS[x] >= 0, SS[x + 1] <= v.N, x >= 0, x < v.nt)), None, CT, only=['type labels', 'sums', 'sums ordered', 'next cells'])


def _t3_step(L):
    i = L.p('i'); tg = _f(L, 'type_groups').at
    L.setg('VIX', z3.Store(L.g('VIX'), i, tg(L.c.v.tl.at(i)).off))


def _t3_exit(L):
    v = L.c.v; SS, RB = L.g('SS'), L.g('RB'); T_, q = ivars('T', 'q'); tg = _f(L, 'type_groups').at; gs = _f(L, 'type_group_size').at; done = L.v('i') == v.N
    L.by('groups are full', forall([T_], Imp(And(done, 0 <= T_, T_ < v.nt), tg(T_).off == SS[T_]), [tg(T_).off]), None, CT, only=['next cells', 'counted', 'sums'])
    L.by('group of a position', forall([T_, q], Imp(And(0 <= T_, T_ < v.nt, SS[T_] <= q, q < SS[T_ + 1]), RB[q] == T_), [(SS[T_], RB[q])]), None, CT, only=['groups of positions', 'sums ordered', 'sums'])


r = reg('iscc_type_count', _tc_pre, _tc_post,
        loops={0: LoopSpec(_t0, ghosts=('SS',), ghost0=_t0_g0, head=_t0_head, step=_t0_step),
               1: LoopSpec(_t1, ghosts=('TS',), ghost0=_t1_g0, head=_t1_head, step=_t1_step),
               2: LoopSpec(_t2, ghosts=('RB',), ghost0=_t2_g0, head=_t2_head, step=lambda L: _rb(L, L.p('i'))),
               3: LoopSpec(_t3, ghosts=('VIX',), ghost0=_t3_g0, head=_t3_head, step=_t3_step, exit=_t3_exit)},
        props=('C02', 'C10', 'C11', 'C12', 'C16'))
