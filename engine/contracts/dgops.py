"""digraph_operations.c"""
from .base import *
C7 = ('C07',)
AI = z3.ArraySort(IS, IS)
AB = z3.ArraySort(IS, BS)
AAI = z3.ArraySort(IS, AI)
AAB = z3.ArraySort(IS, AB)


def resized_cases(c, sv, t, h, newm, body, more=T):
    """outcomes of an operation that ends in iscc_change_arc_storage(dg, newm), newm <= max_arcs; the struct keeps its tail array"""
    m = sv.o('max_arcs')

    def common():
        c.fact('%s: storage fits exactly' % sv.name, sv('max_arcs') == newm(), C7)

    def resized():
        c.same(sv.loc('head')); c.resized(h, newm()); common(); body()

    def same():
        c.same(sv.loc('head')); common(); body()

    def emptied():
        c.freed(h); c.null(sv.loc('head')); common(); body()

    def nomem():
        c.same(sv.loc('head')); c.same(sv.loc('max_arcs'))
        for n, f in valid_facts(sv('vertices'), sv('max_arcs'), t.at, h.at):
            c.fact('after failure: ' + n, f, C7)
    ok = c.ret == EC(c, 'OK')
    return [('shrunk', lambda: And(ok, more, newm() > 0, newm() < m), resized),
            ('same size', lambda: And(ok, more, newm() == m), same),
            ('emptied', lambda: And(ok, more, newm() == 0, m > 0), emptied),
            ('error no memory', lambda: And(c.ret == EC(c, 'NO_MEMORY'), more, oom(c)), nomem)]


def row_facts(T0, hi, ROW, n):
    """ROW[p] is the row of arc position p, for p < hi"""
    p = z3.Int('p')
    return forall([p], Imp(And(0 <= p, p < hi), And(0 <= ROW[p], ROW[p] < n, T0(ROW[p]) <= p, p < T0(ROW[p] + 1))), [ROW[p]])


# ---------------------------------------------------------------- in-place filters: delete_loops and difference
class Filter:
    """An in-place filter of the arcs of one digraph.  CD[p]: number of arcs kept before position p; ROW[p]: row of p."""

    def __init__(s, c, sv, t, h, keep):
        s.c, s.sv, s.t, s.h, s.keep = c, sv, t, h, keep

    def spec(s, CD, ROW, keepg, hi):
        """facts of the positions below hi"""
        p = z3.Int('p'); T0, H0 = s.t.o, s.h.o
        n = s.sv('vertices')
        kp = keepg(p)
        return [('rows of positions', row_facts(T0, hi, ROW, n)),
                ('kept arcs are counted', And(CD[0] == 0, forall([p], Imp(And(0 <= p, p < hi), CD[p + 1] == CD[p] + Ite(kp, I(1), I(0))), [ROW[p]])))]

    def moved(s, CD, ROW, keepg, hi):
        p = z3.Int('p')
        return [('kept arcs stand in order', forall([p], Imp(And(0 <= p, p < hi, keepg(p)), And(0 <= CD[p], CD[p] < CD[hi], s.h.at(CD[p]) == s.h.o(p))), [ROW[p]]))]


def _dl_pre(c):
    c.v.sv, c.v.t, c.v.h = dg_in(c, 'dg', mod={'max_arcs', 'head'}, mod_tail=True, mod_head=True)


def _dl_keep(c, ROW):
    return lambda p: c.v.h.o(p) != ROW[p]


def filter_post(c, keep, extra=()):
    sv, t, h = c.v.sv, c.v.t, c.v.h
    n = sv('vertices')
    m0 = lambda: t.o(n)
    v = z3.Int('v')
    W = {}

    def body():
        CD, ROW = W['CD'], W['ROW']
        f = Filter(c, sv, t, h, None)
        for nm, g in f.spec(CD, ROW, keep(ROW, CD), m0()) + f.moved(CD, ROW, keep(ROW, CD), m0()):
            c.fact(nm, g, C7)
        c.fact('rows end at their kept arcs', forall([v], Imp(And(0 <= v, v <= n), t.at(v) == CD[t.o(v)]), [t.at(v)]), C7)
        for nm, g in valid_facts(n, sv('max_arcs'), t.at, h.at):
            c.fact('result: ' + nm, g, C7)
        for nm, g in extra:
            c.fact(nm, g(), C7)

    def newm():
        if 'CD' not in W or W.get('st') is not c.st and not c.producing():
            W['CD'] = c.witness('CD', AI) if c.producing() or 'CD' in c.st.ghosts else z3.Const('CDnone!%d' % uid(), AI)
            W['ROW'] = c.witness('ROW', AI) if c.producing() or 'ROW' in c.st.ghosts else z3.Const('ROWnone!%d' % uid(), AI)
            W['st'] = c.st
        if c.producing():
            c.st.ghosts[c.name + '.CD'], c.st.ghosts[c.name + '.ROW'] = W['CD'], W['ROW']
        return W['CD'][t.o(n)]
    empty = t.o(n) == 0

    def unch():
        c.same(sv.loc('head')); c.same(sv.loc('max_arcs'))
        c.fact('nothing changed', And(unchanged(c, t), unchanged(c, h)), C7)
    return [('no arcs', And(empty, c.ret == EC(c, 'OK')), unch)] + resized_cases(c, sv, t, h, newm, body, Not(empty))


def filter_outer(L, w, keep):
    """w: number of kept arcs written (variable)"""
    c = L.c; sv, t, h = c.v.sv, c.v.t, c.v.h
    v = L.v('v'); n = sv('vertices'); i, j, k = ivars('i', 'j', 'k')
    CD, ROW = L.g('CD'), L.g('ROW')
    f = Filter(c, sv, t, h, None)
    hi = t.o(v)
    return f.spec(CD, ROW, keep(ROW, CD), hi) + f.moved(CD, ROW, keep(ROW, CD), hi) + [
        ('written', And(w == CD[hi], 0 <= w, w <= hi)),
        ('rows done', forall([i], Imp(And(0 <= i, i < v), And(t.at(i) == CD[t.o(i)], t.at(i) <= w, t.at(i) >= 0)), [t.at(i)])),
        ('first row', Imp(v > 0, t.at(0) == 0)),
        ('rows ordered', forall([i, j], Imp(And(0 <= i, i <= j, j < v), t.at(i) <= t.at(j)), [(t.at(i), t.at(j))])),
        ('rows to come', forall([i], Imp(And(v <= i, i <= n), t.at(i) == t.o(i)), [t.at(i)])),
        ('arcs to come', forall([k], Imp(And(hi <= k, k < t.o(n)), h.at(k) == h.o(k)), [h.at(k)])),
        ('heads are vertices', forall([k], Imp(And(0 <= k, k < w), And(h.at(k) >= 0, h.at(k) < n)), [h.at(k)])),
    ]


def filter_inner(L, w, pos, keep):
    c = L.c; sv, t, h = c.v.sv, c.v.t, c.v.h
    v = L.v('v'); n = sv('vertices'); i, j, k = ivars('i', 'j', 'k')
    CD, ROW = L.g('CD'), L.g('ROW')
    f = Filter(c, sv, t, h, None)
    return f.spec(CD, ROW, keep(ROW, CD), pos) + f.moved(CD, ROW, keep(ROW, CD), pos) + [
        ('position in the row', And(t.o(v) <= pos, pos <= t.o(v + 1))),
        ('written', And(w == CD[pos], w <= pos, w >= CD[t.o(v)])),
        ('earlier counts kept', forall([k], Imp(And(0 <= k, k <= t.o(v)), CD[k] == L.entry.ghosts['CD'][k]), [CD[k]])),
        ('arcs to come', forall([k], Imp(And(pos <= k, k < t.o(n)), h.at(k) == h.o(k)), [h.at(k)])),
        ('heads are vertices', forall([k], Imp(And(0 <= k, k < w), And(h.at(k) >= 0, h.at(k) < n)), [h.at(k)])),
    ]


def filter_g0(L):
    for g in ('CD', 'ROW'):
        L.setg(g, z3.Const('%s!%d' % (g, uid()), AI))
    L.setg('CD', z3.Store(L.g('CD'), 0, I(0)))


def filter_step(L, pos, keep):
    CD, ROW = L.g('CD'), L.g('ROW'); v = L.v('v')
    R2 = z3.Const('ROW!%d' % uid(), AI)
    L.st.assume(R2 == z3.Store(ROW, pos, v), 'ghost')
    L.setg('ROW', R2)
    L.setg('CD', z3.Store(CD, pos + 1, CD[pos] + Ite(keep(R2, CD)(pos), I(1), I(0))))


def _dlk(L):
    return lambda ROW, CD: _dl_keep(L.c, ROW)


reg('iscc_delete_loops', _dl_pre, lambda c: filter_post(c, lambda ROW, CD: _dl_keep(c, ROW)),
    loops={0: LoopSpec(lambda L: filter_outer(L, L.v('head_write'), _dlk(L)), ghosts=('CD', 'ROW'), ghost0=filter_g0),
           1: LoopSpec(lambda L: filter_inner(L, L.v('head_write'), L.off('v_arc'), _dlk(L)), ghosts=('CD', 'ROW'),
                       step=lambda L: filter_step(L, L.p('v_arc').off, _dlk(L)))},
    props=('C07', 'C11', 'C12', 'C16'))


# ---------------------------------------------------------------- difference
def _df_pre(c):
    c.v.sv, c.v.t, c.v.h = dg_in(c, 'minuend_dg', mod={'max_arcs', 'head'}, mod_tail=True, mod_head=True)
    c.v.ssv, c.v.st_, c.v.sh = dg_in(c, 'subtrahend_dg')
    c.fact('same vertices', And(c.v.sv('vertices') > 0, c.v.sv('vertices') == c.v.ssv('vertices')))
    c.fact('positive degree limit', c.a('max_out_degree') > 0)


def sub_facts(c, SUB, WP, hi):
    """SUB[v][h]: row v (below hi) of the subtrahend has an arc to h"""
    t, h = c.v.st_, c.v.sh; v, x, p = ivars('v', 'x', 'p')
    return [('removed arcs are in the subtrahend', forall([v, x], Imp(And(0 <= v, v < hi, SUB[v][x]), And(t.o(v) <= WP[v][x], WP[v][x] < t.o(v + 1), h.o(WP[v][x]) == x)), [SUB[v][x]])),
            ('arcs of the subtrahend are removed', forall([v, p], Imp(And(0 <= v, v < hi, t.o(v) <= p, p < t.o(v + 1)), SUB[v][h.o(p)]), [(SUB[v], h.o(p))]))]


def _df_keep(c, ROW, CD, SUB):
    return lambda p: And(Not(SUB[ROW[p]][c.v.h.o(p)]), CD[p] - CD[c.v.t.o(ROW[p])] < c.a('max_out_degree'))


def _dfk(L):
    return lambda ROW, CD: _df_keep(L.c, ROW, CD, L.g('SUB'))


def _df_post(c):
    n = c.v.sv('vertices')
    W = {}

    def keep(ROW, CD):
        if 'SUB' not in W:
            W['SUB'] = c.witness('SUB', AAB); W['WP'] = c.witness('WP', AAI)
        return _df_keep(c, ROW, CD, W['SUB'])
    extra = [(nm, (lambda i=i: sub_facts(c, W['SUB'], W['WP'], n)[i][1])) for i, nm in enumerate(('removed arcs are in the subtrahend', 'arcs of the subtrahend are removed'))]
    r = filter_post(c, keep, extra)

    def nothing():
        c.same(c.v.sv.loc('head')); c.same(c.v.sv.loc('max_arcs'))
        c.fact('nothing changed', And(unchanged(c, c.v.t), unchanged(c, c.v.h)), C7)
    if c.mode == 'verify':
        # the failing path ends before or after the filter has run
        if 'CD' not in c.st.ghosts:
            return [r[0], ('error no memory', And(c.ret == EC(c, 'NO_MEMORY'), oom(c)), nothing)]
    return r


def _df_outer(L):
    c = L.c; v = L.v('v'); m = L.arr('row_markers'); k = z3.Int('k'); n = c.v.sv('vertices')
    return filter_outer(L, L.v('out_arcs_write'), _dfk(L)) + sub_facts(c, L.g('SUB'), L.g('WP'), v) + [
        ('markers of earlier rows', forall([k], Imp(And(0 <= k, k < n), Or(m.at(k) < v, m.at(k) == c.const('ISCC_POINTINDEX_MAX_PI'))), [m.at(k)]))]


def _df_outer_g0(L):
    filter_g0(L)
    L.setg('SUB', z3.Const('SUB!%d' % uid(), AAB)); L.setg('WP', z3.Const('WP!%d' % uid(), AAI))


def _df_sub(L):
    c = L.c; v = L.v('v'); m = L.arr('row_markers'); k, x, p = ivars('k', 'x', 'p'); n = c.v.sv('vertices')
    t, h = c.v.st_, c.v.sh; cur = L.off('v_arc_s'); W = L.g('W1')
    return [('position in the row', And(t.o(v) <= cur, cur <= t.o(v + 1))),
            ('markers', forall([k], Imp(And(0 <= k, k < n), Or(m.at(k) < v, m.at(k) == c.const('ISCC_POINTINDEX_MAX_PI'), And(m.at(k) == v, t.o(v) <= W[k], W[k] < cur, h.o(W[k]) == k))), [m.at(k)])),
            ('passed arcs are marked', forall([p], Imp(And(t.o(v) <= p, p < cur), m.at(h.o(p)) == v), [h.o(p)]))]


def _df_sub_exit(L):
    m = L.arr('row_markers'); v = L.v('v'); k = z3.Int('k')
    S1 = z3.Const('S1!%d' % uid(), AB)
    L.assume_def(forall([k], S1[k] == And(0 <= k, k < L.c.v.sv('vertices'), m.at(k) == v), [S1[k]]), 'ghost: heads of the subtrahend row')
    L.setg('SUB', z3.Store(L.g('SUB'), v, S1)); L.setg('WP', z3.Store(L.g('WP'), v, L.g('W1')))


def _df_inner(L):
    c = L.c; v = L.v('v'); m = L.arr('row_markers'); CD = L.g('CD'); k = z3.Int('k')
    return filter_inner(L, L.v('out_arcs_write'), L.off('arc_m'), _dfk(L)) + [
        ('arcs kept in the row', And(L.v('row_counter') == CD[L.off('arc_m')] - CD[c.v.t.o(v)], L.v('row_counter') >= 0, L.v('row_counter') <= c.a('max_out_degree')))]


def _df_inner_exit(L):
    """an early stop keeps nothing of the rest of the row"""
    c = L.c; v = L.v('v'); CD, ROW = L.g('CD'), L.g('ROW'); k = z3.Int('k'); pos = L.off('arc_m'); e = c.v.t.o(v + 1)
    C2, R2 = z3.Const('CD!%d' % uid(), AI), z3.Const('ROW!%d' % uid(), AI)
    L.assume_def(forall([k], C2[k] == Ite(And(pos < k, k <= e), CD[pos], CD[k]), [C2[k]]), 'ghost')
    L.assume_def(forall([k], R2[k] == Ite(And(pos <= k, k < e), v, ROW[k]), [R2[k]]), 'ghost')
    L.setg('CD', C2); L.setg('ROW', R2)


reg('iscc_digraph_difference', _df_pre, _df_post,
    loops={0: LoopSpec(lambda L: [('markers set', forall([z3.Int('k')], Imp(And(0 <= z3.Int('k'), z3.Int('k') < L.v('v')), L.arr('row_markers').at(z3.Int('k')) == L.c.const('ISCC_POINTINDEX_MAX_PI')), [L.arr('row_markers').at(z3.Int('k'))]))]),
           1: LoopSpec(_df_outer, ghosts=('CD', 'ROW', 'SUB', 'WP'), ghost0=_df_outer_g0),
           2: LoopSpec(_df_sub, ghosts=('W1',), ghost0=lambda L: L.setg('W1', z3.Const('W1!%d' % uid(), AI)),
                       step=lambda L: L.setg('W1', z3.Store(L.g('W1'), L.c.v.sh.o(L.p('v_arc_s').off), L.p('v_arc_s').off)), exit=_df_sub_exit),
           3: LoopSpec(_df_inner, ghosts=('CD', 'ROW'), step=lambda L: filter_step(L, L.p('arc_m').off, _dfk(L)), exit=_df_inner_exit)},
    props=('C07', 'C11', 'C12', 'C16'))


# ---------------------------------------------------------------- transpose
def _tr_pre(c):
    c.v.sv, c.v.t, c.v.h = dg_in(c, 'in_dg', heap=False)
    c.fact('has vertices', c.v.sv('vertices') > 0)
    c.v.out = c.struct('out_dg', mod=True)


def transposed(t, h, ot, oh, INV, POS, RO, n, m):
    """the arcs of (ot, oh) are those of (t, h) reversed, one to one; RO: row of a position in ot"""
    x, q, p = ivars('x', 'q', 'p')
    return [('every position has its row', row_facts(ot, m, RO, n)),
            ('every arc is the reverse of an arc', forall([q], Imp(And(0 <= q, q < m),
                                                                   And(0 <= oh(q), oh(q) < n, 0 <= INV[q], INV[q] < m, t(oh(q)) <= INV[q], INV[q] < t(oh(q) + 1), h(INV[q]) == RO[q], POS[INV[q]] == q)), [oh(q)])),
            ('every arc is reversed', forall([p], Imp(And(0 <= p, p < m), And(ot(h(p)) <= POS[p], POS[p] < ot(h(p) + 1), INV[POS[p]] == p)), [h(p)]))]


def _tr_post(c):
    t, h, out = c.v.t, c.v.h, c.v.out; n = c.v.sv('vertices'); m = t.at(n)

    def ok():
        c.fact('sizes', And(out('vertices') == n, out('max_arcs') == m), C7)
        ot = c.fresh(out.loc('tail_ptr'), n + 1)
        oh = c.fresh(out.loc('head'), m, null=(m == 0))
        for nm, f in valid_facts(n, m, ot.at, oh.at):
            c.fact('result: ' + nm, f, C7)
        c.fact('as many arcs', ot.at(n) == m, C7)
        none = lambda: z3.Const('none!%d' % uid(), AI)
        INV = c.witness('INV', AI) if c.producing() or 'INV' in c.st.ghosts else none()
        POS = c.witness('POS', AI) if c.producing() or 'POS' in c.st.ghosts else none()
        RO = c.witness('RO', AI) if c.producing() or 'RO' in c.st.ghosts else none()
        for nm, f in transposed(t.at, h.at, ot.at, oh.at, INV, POS, RO, n, m):
            c.fact(nm, f, C7)

    def nomem():
        c.null(out.loc('tail_ptr')); c.null(out.loc('head'))
    return [('ok', c.ret == EC(c, 'OK'), ok), ('error no memory', And(c.ret == EC(c, 'NO_MEMORY'), oom(c)), nomem)]


def _ot(L):
    out = L.c.v.out
    return vc_arr(L, out, 'tail_ptr')


def vc_arr(L, sv, f):
    p = sv._rd(L.st, f)
    return AV_(L, p, dict(sv.t.fields)[f].to)


from vc import AV as AV_


def _tr0(L):
    c = L.c; n = c.v.sv('vertices'); ot = _ot(L); SS, FH = L.g('SS'), L.g('FH'); cur = L.off('arc_c'); i, j, p, x, q = ivars('i', 'j', 'p', 'x', 'q')
    h = c.v.h
    return [('position', And(0 <= cur, cur <= c.v.t.at(n))),
            ('sums', And(SS[0] == 0, SS[n] == cur, forall([i], Imp(And(0 <= i, i < n), And(SS[i + 1] == SS[i] + ot.at(i), ot.at(i) >= 0)), [ot.at(i)]))),
            ('sums ordered', forall([i, j], Imp(And(0 <= i, i <= j, j <= n), SS[i] <= SS[j]), [(SS[i], SS[j])])),
            ('last row', ot.at(n) == 0),
            ('history', forall([p], Imp(And(0 <= p, p < cur), And(FH[p + 1] == z3.Store(FH[p], h.at(p), FH[p][h.at(p)] + 1), FH[p][h.at(p)] >= 0, FH[p][h.at(p)] + 1 <= ot.at(h.at(p)))), [h.at(p)])),
            ('history start', forall([x], Imp(And(0 <= x, x < n), And(FH[0][x] == 0, FH[cur][x] == ot.at(x))), [FH[cur][x], ot.at(x)]))]


def _tr0_g0(L):
    k = z3.Int('k')
    SS = z3.Const('SS!%d' % uid(), AI); F0 = z3.Const('F0!%d' % uid(), AI); FH = z3.Const('FH!%d' % uid(), AAI)
    L.assume_def(forall([k], SS[k] == 0, [SS[k]]), 'ghost'); L.assume_def(forall([k], F0[k] == 0, [F0[k]]), 'ghost')
    L.setg('SS', SS); L.setg('FH', z3.Store(FH, 0, F0))


def _tr0_step(L):
    c = L.c; cur = L.p('arc_c').off; x = c.v.h.at(cur); k = z3.Int('k')
    SS, FH = L.g('SS'), L.g('FH')
    S2 = z3.Const('SS!%d' % uid(), AI); F2 = z3.Const('F!%d' % uid(), AI)
    L.assume_def(forall([k], S2[k] == SS[k] + Ite(k > x, I(1), I(0)), [S2[k]]), 'ghost')
    L.assume_def(F2 == z3.Store(FH[cur], x, FH[cur][x] + 1), 'ghost')
    L.setg('SS', S2); L.setg('FH', z3.Store(FH, cur + 1, F2))


def _tr1(L):
    c = L.c; n = c.v.sv('vertices'); ot = _ot(L); SS = L.g('SS'); v = L.v('v'); i = z3.Int('i')
    return [('summed rows', forall([i], Imp(And(0 <= i, i <= v, i < n), ot.at(i) == SS[i + 1]), [ot.at(i)])),
            ('rows to come', forall([i], Imp(And(v < i, i < n), ot.at(i) == ot.ent(i)), [ot.at(i)])),
            ('last row', ot.at(n) == Ite(v == n, SS[n], I(0))),
            ('rows of positions', row_facts(lambda k: SS[k], SS[v], L.g('RO'), v))]


def _tr1_step(L):
    v = L.p('v'); SS, RO = L.g('SS'), L.g('RO'); q = z3.Int('q')
    R2 = z3.Const('RO!%d' % uid(), AI)
    L.assume_def(forall([q], R2[q] == Ite(And(SS[v] <= q, q < SS[v + 1]), v, RO[q]), [R2[q]]), 'ghost')
    L.setg('RO', R2)


def _tr_place(L, cur):
    c = L.c; n = c.v.sv('vertices'); ot = _ot(L); oh = vc_arr(L, c.v.out, 'head'); t, h = c.v.t, c.v.h
    SS, FH, INV, POS = L.g('SS'), L.g('FH'), L.g('INV'), L.g('POS'); x, q, p = ivars('x', 'q', 'p')
    return [('arcs left to place', forall([x], Imp(And(0 <= x, x < n), And(ot.at(x) == SS[x + 1] - FH[cur][x], SS[x] <= ot.at(x))), [ot.at(x)])),
            ('end', ot.at(n) == SS[n]),
            ('room for the next arc', Imp(cur < t.at(n), And(FH[cur][h.at(cur)] >= 0, FH[cur][h.at(cur)] + 1 <= SS[h.at(cur) + 1] - SS[h.at(cur)], 0 <= SS[h.at(cur)], SS[h.at(cur) + 1] <= SS[n],
                                                           FH[cur + 1] == z3.Store(FH[cur], h.at(cur), FH[cur][h.at(cur)] + 1)))),
            ('placed arcs', forall([q], Imp(And(0 <= q, q < SS[n], ot.at(L.g('RO')[q]) <= q),
                                            And(0 <= oh.at(q), oh.at(q) < n, t.at(oh.at(q)) <= INV[q], INV[q] < t.at(oh.at(q) + 1), h.at(INV[q]) == L.g('RO')[q], POS[INV[q]] == q, INV[q] < cur, INV[q] >= 0)), [oh.at(q)])),
            ('arcs placed', forall([p], Imp(And(0 <= p, p < cur), And(ot.at(h.at(p)) <= POS[p], POS[p] < SS[h.at(p) + 1], INV[POS[p]] == p)), [h.at(p)]))]


def _tr2_g0(L):
    L.setg('INV', z3.Const('INV!%d' % uid(), AI)); L.setg('POS', z3.Const('POS!%d' % uid(), AI))


def _tr3_step(L):
    c = L.c; cur = L.p('arc').off; x = c.v.h.at(cur)
    q = _ot(L).at(x)
    L.setg('INV', z3.Store(L.g('INV'), q, cur)); L.setg('POS', z3.Store(L.g('POS'), cur, q))


reg('iscc_digraph_transpose', _tr_pre, _tr_post,
    loops={0: LoopSpec(_tr0, ghosts=('SS', 'FH'), ghost0=_tr0_g0, step=_tr0_step),
           1: LoopSpec(_tr1, ghosts=('RO',), ghost0=lambda L: L.setg('RO', z3.Const('RO!%d' % uid(), AI)), step=_tr1_step),
           2: LoopSpec(lambda L: _tr_place(L, L.c.v.t.at(L.v('v'))), ghosts=('INV', 'POS'), ghost0=_tr2_g0),
           3: LoopSpec(lambda L: [('position in the row', And(L.c.v.t.at(L.v('v')) <= L.off('arc'), L.off('arc') <= L.c.v.t.at(L.v('v') + 1)))] + _tr_place(L, L.off('arc')), ghosts=('INV', 'POS'), step=_tr3_step)},
    props=('C07', 'C11', 'C12', 'C16'))
