"""digraph_operations.c: adjacency product.

The arcs looked at form one stream: arc K of the stream is looked at for row VS[K] and leads to XS[K].  The position of
an arc in the stream is explicit (PSB: prefix sums of the second graph's row lengths over the first graph's arcs), so
that two passes over the same graphs see the same stream; CN[K] counts the distinct new arcs before position K.
"""
from .base import *
from .dgops import vc_arr, AI, AB, AAI, AAB, C7
from vc import AV as AV_


def _fn(name, sort):
    return z3.Function(name, AI, AI, AI, AI, BS, sort)


XSF, VSF, CNF, MKF = _fn('product.XS', AI), _fn('product.VS', AI), _fn('product.CN', AI), _fn('product.MK', AAI)
PSBF = z3.Function('product.PSB', AI, AI, AI)


def _seq_lemma():
    """a sequence growing by 0 or 1 per step"""
    a, j, k = z3.Ints('a j k'); S = z3.Const('S', AI)
    D = z3.ForAll([k], z3.Implies(k >= 0, z3.And(S[k + 1] - S[k] >= 0, S[k + 1] - S[k] <= 1)))
    P = lambda b: z3.ForAll([a], z3.Implies(z3.And(0 <= a, a <= b), z3.And(S[a] <= S[b], S[b] - S[a] <= b - a)))
    proved('sequences growing by at most one', P(I(0)), z3.Implies(z3.And(D, j >= 0, P(j), S[j + 1] - S[j] >= 0, S[j + 1] - S[j] <= 1), P(j + 1)))


class G:
    """the stream of a pair of graphs"""

    def __init__(s, c, n, ta, ha, tb, hb, force):
        s.c, s.n, s.ta, s.ha, s.tb, s.hb = c, n, ta.at, ha.at, tb.at, hb.at
        s.f = force
        k = (ta.raw(), ha.raw(), tb.raw(), hb.raw())
        st = c.st

        def nm(n, e):
            w = z3.Const('%s!%d' % (n, uid()), e.sort()); st.assume(w == e, 'ghost'); return w
        s.XS, s.VS, s.CN, s.MK = [nm(m, F_(*k, force)) for m, F_ in (('XS', XSF), ('VS', VSF), ('CN', CNF), ('MK', MKF))]
        s.PSB = nm('PSB', PSBF(k[1], k[2]))
        K, x, a, b, p = ivars('K', 'x', 'a', 'b', 'p')
        ma = s.ta(n)
        d = lambda f, why: st.assume(f, 'definition: ' + why)
        d(And(s.PSB[0] == 0, forall([p], Imp(And(0 <= p, p < ma), s.PSB[p + 1] == s.PSB[p] + s.tb(s.ha(p) + 1) - s.tb(s.ha(p))), [s.ha(p)])), 'PSB')
        d(And(s.CN[0] == 0, forall([x], s.MK[0][x] == -1, [s.MK[0][x]])), 'stream start')
        d(forall([K], Imp(K >= 0, And(s.MK[K + 1] == z3.Store(s.MK[K], s.XS[K], s.VS[K]), s.CN[K + 1] == s.CN[K] + Ite(s.new(K), I(1), I(0)))), [s.XS[K]]), 'stream step')
        _seq_lemma()
        st.assume(forall([a, b], Imp(And(0 <= a, a <= b), And(s.CN[a] <= s.CN[b], s.CN[b] - s.CN[a] <= b - a)), [(s.CN[a], s.CN[b])]), 'lemma: sequences growing by at most one')

    def new(s, K):
        return And(s.XS[K] != s.VS[K], s.MK[K][s.XS[K]] != s.VS[K])

    def KR(s, v):
        """start of row v"""
        return s.PSB[s.ta(v)] + Ite(s.f, s.tb(v), I(0))

    def KF(s, v, pb):
        return s.PSB[s.ta(v)] + pb

    def KA(s, v, pa):
        return s.PSB[pa] + Ite(s.f, s.tb(v + 1), I(0))

    def K(s, v, pa, pb):
        return s.KA(v, pa) + pb - s.tb(s.ha(pa))

    def end(s):
        return s.PSB[s.ta(s.n)] + Ite(s.f, s.tb(s.n), I(0))

    def stream(s, x, more, v, k, pb):
        """if there is a further arc, arc pb of the second graph stands at position k: the position determines row and arc"""
        x.assume_def(Imp(more, And(s.XS[k] == s.hb(pb), s.VS[k] == v)), 'definition: arc of the stream')

    def sums(s, x, tags=C7):
        """prefix sums are ordered and small"""
        a, j = ivars('a', 'j'); P = s.PSB; ma = s.ta(s.n); c = x.c if hasattr(x, 'c') else x; top = c.const('ISCC_ARCINDEX_MAX')
        tb, ha = s.tb, s.ha
        x.by('rows of the second graph', forall([j], Imp(And(0 <= j, j < ma), And(ha(j) >= 0, ha(j) < s.n, P[j + 1] == P[j] + tb(ha(j) + 1) - tb(ha(j)), tb(ha(j)) <= tb(ha(j) + 1), tb(ha(j) + 1) <= tb(s.n), tb(ha(j)) >= 0, tb(s.n) <= top)), [ha(j)]), tags=tags,
             only=['heads are vertices', 'rows are ordered', 'definition: PSB'])
        has = lambda j: Imp(j < ma, And(ha(j) >= 0, P[j + 1] >= P[j]))
        keep = lambda *n: dict(steps=lambda: x.st.pc.__setitem__(slice(None), [y for y in x.st.pc if not y.q or y.n in n]))
        x.induct('prefix sums are small', [], j, I(0), ma, lambda j: And(P[j] >= 0, P[j] <= j * top, has(j)), [P[j]], tags, **keep('rows of the second graph'))
        x.induct('prefix sums are ordered', [a], j, a, ma, lambda j: And(P[a] <= P[j], has(j)), [(P[a], P[j])], tags, guard=a >= 0, **keep('rows of the second graph'))


def product_args(c, pre=''):
    v = c.v
    v.sa, v.ta, v.ha = dg_in(c, pre + 'dg_a', heap=False)
    v.sb, v.tb, v.hb = dg_in(c, pre + 'dg_b', heap=False)
    v.n = v.sa('vertices')
    c.fact('graphs over the same vertices', And(v.n > 0, v.n == v.sb('vertices')))
    c.fact('graphs with arcs', And(v.ta.at(v.n) > 0, v.tb.at(v.n) > 0))


def _pp_pre(c):
    v = c.v
    product_args(c)
    v.m = c.arr('row_markers', v.n, mod=True)
    w = c.variant['w'] if c.mode == 'verify' else z3.is_true(z3.simplify(c.a('write')))
    v.w = w
    if c.mode == 'verify':
        c.fact('mode', c.a('write') == B(w)); c.fact('force', c.a('force_loops') == B(c.variant['f']))
    v.g = G(c, v.n, v.ta, v.ha, v.tb, v.hb, c.a('force_loops'))
    if w:
        v.ot = c.arr('out_tail_ptr', v.n + 1, mod=True)
        v.cap = c.length('out_head', least=0)
        v.oh = c.arr('out_head', v.cap, mod=True, null=v.cap == 0)
        c.fact('room for the arcs', And(v.g.CN[v.g.end()] <= v.cap, v.cap <= c.const('ISCC_ARCINDEX_MAX')))
    else:
        c.null('out_tail_ptr'); c.null('out_head')


def product_facts(n, ta, ha, tb, hb, force, ot, oh, RO, SET, LOC, PA, PB):
    """(ot, oh) is the product: every arc has a path, every path an arc, no arc twice"""
    u, x, q, p, b = ivars('u', 'x', 'q', 'p', 'b')
    return [('every arc has its row', row_facts_(ot, ot(n), RO, n)),
            ('every arc is a path', forall([q], Imp(And(0 <= q, q < ot(n)), path_fact(ta, ha, tb, hb, force, RO[q], oh(q), PA[q], PB[q])), [oh(q)])),
            ('no arc twice', forall([q], Imp(And(0 <= q, q < ot(n)), LOC[RO[q]][oh(q)] == q), [oh(q)])),
            ('paths are found', forall([u, p, b], Imp(And(0 <= u, u < n, ta(u) <= p, p < ta(u + 1), tb(ha(p)) <= b, b < tb(ha(p) + 1)), SET[u][hb(b)]), [(SET[u], ha(p), hb(b))])),
            ('own arcs are found', Imp(force, forall([u, b], Imp(And(0 <= u, u < n, tb(u) <= b, b < tb(u + 1)), SET[u][hb(b)]), [(SET[u], hb(b))]))),
            ('found vertices have arcs', forall([u, x], Imp(And(0 <= u, u < n, SET[u][x], x != u), And(ot(u) <= LOC[u][x], LOC[u][x] < ot(u + 1), oh(LOC[u][x]) == x)), [SET[u][x]]))]


def row_facts_(ot, hi, RO, n):
    q = z3.Int('q')
    return forall([q], Imp(And(0 <= q, q < hi), And(0 <= RO[q], RO[q] < n, ot(RO[q]) <= q, q < ot(RO[q] + 1))), [RO[q]])


def path_fact(ta, ha, tb, hb, force, u, x, PA, PB):
    """x != u, and PB is an arc to x in row ha(PA) of the second graph, PA an arc of row u (or in row u itself, PA == -1)"""
    return And(x != u, hb(PB) == x, Or(And(force, PA == -1, tb(u) <= PB, PB < tb(u + 1)),
                                       And(ta(u) <= PA, PA < ta(u + 1), tb(ha(PA)) <= PB, PB < tb(ha(PA) + 1))))


GH = (('RO', AI), ('SET', AAB), ('LOC', AAI), ('PA', AI), ('PB', AI))


def _wit(c):
    return {n: (c.witness(n, s) if c.producing() or n in c.st.ghosts else z3.Const('%snone!%d' % (n, uid()), s)) for n, s in GH}


def _pp_post(c):
    v = c.v; g = v.g

    def body():
        c.fact('number of arcs', c.ret == g.CN[g.end()], C7)
        if v.w:
            for nm, f in valid_facts(v.n, v.cap, v.ot.at, v.oh.at):
                c.fact('result: ' + nm, f, C7)
            c.fact('all arcs written', v.ot.at(v.n) == c.ret, C7)
            W = _wit(c)
            for nm, f in product_facts(v.n, v.ta.at, v.ha.at, v.tb.at, v.hb.at, c.a('force_loops'), v.ot.at, v.oh.at, *[W[n] for n, _ in GH]):
                c.fact(nm, f, C7)
    return [('done', T, body)]


# ---- loops
def _markers(L, k, u):
    """markers while row u is worked on, at stream position k"""
    v = L.c.v; g = v.g; m = v.m.at; x = z3.Int('x')
    return [('marked', forall([x], Imp(And(0 <= x, x < v.n), And((m(x) == u) == Or(x == u, g.MK[k][x] == u), Or(m(x) <= u, m(x) == L.c.const('ISCC_POINTINDEX_MAX_PI')), g.MK[k][x] <= u)), [m(x)], )),
            ('marked earlier in the stream', forall([x], g.MK[k][x] <= u, [g.MK[k][x]]))]


def _between(L, k, u):
    """markers before row u"""
    v = L.c.v; g = v.g; m = v.m.at; x = z3.Int('x')
    return [('markers of earlier rows', forall([x], Imp(And(0 <= x, x < v.n), Or(m(x) < u, m(x) == L.c.const('ISCC_POINTINDEX_MAX_PI'))), [m(x)])),
            ('marked earlier in the stream', forall([x], g.MK[k][x] < u, [g.MK[k][x]]))]


def _done_rows(L, u, cnt):
    """rows below u are written"""
    v = L.c.v; ot, oh = v.ot.at, v.oh.at; W = [L.g(n) for n, _ in GH]; RO, SET, LOC, PA, PB = W
    i, j, x, q, p, b, y = ivars('i', 'j', 'x', 'q', 'p', 'b', 'y'); n = v.n
    ta, ha, tb, hb = v.ta.at, v.ha.at, v.tb.at, v.hb.at; force = L.c.a('force_loops')
    return [('first row', ot(I(0)) == 0),
            ('rows ordered', forall([i, j], Imp(And(0 <= i, i <= j, j <= u), And(ot(i) <= ot(j), ot(i) >= 0)), [(ot(i), ot(j))])),
            ('row start', ot(u) <= cnt),
            ('heads are vertices', forall([q], Imp(And(0 <= q, q < cnt), And(oh(q) >= 0, oh(q) < n)), [oh(q)])),
            ('every arc has its row', forall([q], Imp(And(0 <= q, q < ot(u)), And(0 <= RO[q], RO[q] < u, ot(RO[q]) <= q, q < ot(RO[q] + 1))), [RO[q]])),
            ('every arc is a path', forall([q], Imp(And(0 <= q, q < ot(u)), path_fact(ta, ha, tb, hb, force, RO[q], oh(q), PA[q], PB[q])), [oh(q)])),
            ('no arc twice', forall([q], Imp(And(0 <= q, q < ot(u)), LOC[RO[q]][oh(q)] == q), [oh(q)])),
            ('paths are found', forall([y, p, b], Imp(And(0 <= y, y < u, ta(y) <= p, p < ta(y + 1), tb(ha(p)) <= b, b < tb(ha(p) + 1)), SET[y][hb(b)]), [(SET[y], ha(p), hb(b))])),
            ('own arcs are found', Imp(force, forall([y, b], Imp(And(0 <= y, y < u, tb(y) <= b, b < tb(y + 1)), SET[y][hb(b)]), [(SET[y], hb(b))]))),
            ('found vertices have arcs', forall([y, x], Imp(And(0 <= y, y < u, SET[y][x], x != y), And(ot(y) <= LOC[y][x], LOC[y][x] < ot(y + 1), oh(LOC[y][x]) == x)), [SET[y][x]]))]


def _row(L, u, cnt, pa):
    """row u so far: ghosts L1 (position of a vertex), PA, PB"""
    v = L.c.v; ot, oh, m = v.ot.at, v.oh.at, v.m.at; PA, PB, L1 = L.g('PA'), L.g('PB'), L.g('L1'); q, x = ivars('q', 'x')
    ta, ha, tb, hb = v.ta.at, v.ha.at, v.tb.at, v.hb.at; force = L.c.a('force_loops')
    return [('arcs of the row are paths', forall([q], Imp(And(ot(u) <= q, q < cnt), And(path_fact(ta, ha, tb, hb, force, u, oh(q), PA[q], PB[q]), m(oh(q)) == u, L1[oh(q)] == q)), [oh(q)])),
            ('marked vertices have arcs', forall([x], Imp(And(0 <= x, x < v.n, m(x) == u, x != u), And(ot(u) <= L1[x], L1[x] < cnt, oh(L1[x]) == x)), [m(x)]))]


def _own(L, u, hi):
    v = L.c.v; b = z3.Int('b'); tb, hb, m = v.tb.at, v.hb.at, v.m.at
    return ('own arcs marked', forall([b], Imp(And(tb(u) <= b, b < hi), m(hb(b)) == u), [hb(b)]))


def _paths(L, u, pa):
    v = L.c.v; b, p = ivars('b', 'p'); ta, ha, tb, hb, m = v.ta.at, v.ha.at, v.tb.at, v.hb.at, v.m.at
    return ('paths marked', forall([p, b], Imp(And(ta(u) <= p, p < pa, tb(ha(p)) <= b, b < tb(ha(p) + 1)), m(hb(b)) == u), [(ha(p), hb(b))]))


def _init(L):
    v = L.c.v; x = z3.Int('x')
    return [('markers cleared', forall([x], Imp(And(0 <= x, x < L.v('v')), v.m.at(x) == L.c.const('ISCC_POINTINDEX_MAX_PI')), [v.m.at(x)]))]


def _count(L, k):
    g = L.c.v.g
    return [('stream position', And(k >= 0, L.v('counter') == g.CN[k], k <= g.end()))]


def _sums0(L):
    L.c.v.g.sums(L)


def _outer(L):
    v = L.c.v; u = L.v('v'); k = v.g.KR(u)
    return _count(L, k) + _between(L, k, u) + (_done_rows(L, u, L.v('counter')) + [('row end', v.ot.at(u) == L.v('counter'))] if v.w else [])


def _outer_g0(L):
    _sums0(L)
    if L.c.v.w:
        for n, s in GH + (('L1', AI),):
            L.setg(n, z3.Const('%s!%d' % (n, uid()), s))


def _force(L):
    v = L.c.v; u = L.v('v'); b = L.off('v_arc_b'); k = v.g.KF(u, b); cnt = L.v('counter')
    r = [('position in the row', And(v.tb.at(u) <= b, b <= v.tb.at(u + 1)))] + _count(L, k) + _markers(L, k, u)
    if v.w:
        r += _done_rows(L, u, cnt) + _row(L, u, cnt, v.ta.at(u)) + [_own(L, u, b)]
    return r


def _patha(L):
    v = L.c.v; u = L.v('v'); a = L.off('arc_a'); k = v.g.KA(u, a); cnt = L.v('counter')
    r = [('position in the row', And(v.ta.at(u) <= a, a <= v.ta.at(u + 1)))] + _count(L, k) + _markers(L, k, u)
    if v.w:
        r += _done_rows(L, u, cnt) + _row(L, u, cnt, a) + [_paths(L, u, a)]
        if L.c.variant.get('f'):
            r += [_own(L, u, v.tb.at(u + 1))]
    return r


def _pathb(L):
    v = L.c.v; u = L.v('v'); a = L.off('arc_a'); b = L.off('arc_b'); k = v.g.K(u, a, b); cnt = L.v('counter'); y = z3.Int('y')
    tb, ha, hb, m = v.tb.at, v.ha.at, v.hb.at, v.m.at
    r = [('position in the row', And(v.ta.at(u) <= a, a < v.ta.at(u + 1))), ('position in the second row', And(tb(ha(a)) <= b, b <= tb(ha(a) + 1)))] + _count(L, k) + _markers(L, k, u)
    if v.w:
        r += _done_rows(L, u, cnt) + _row(L, u, cnt, a) + [_paths(L, u, a), ('arcs of the second row marked', forall([y], Imp(And(tb(ha(a)) <= y, y < b), m(hb(y)) == u), [hb(y)]))]
        if L.c.variant.get('f'):
            r += [_own(L, u, v.tb.at(u + 1))]
    return r


def _force_head(L):
    v = L.c.v; u = L.v('v'); b = L.off('v_arc_b'); g = v.g; more = b < v.tb.at(u + 1)
    g.stream(L, more, u, g.KF(u, b), b)
    _fits(L, g, more, g.KF(u, b), u)


def _fits(L, g, more, k, u):
    """position k + 1 is not past the end of the stream"""
    v = L.c.v; ta, tb = v.ta.at, v.tb.at
    L.by('end of the row', And(g.PSB[ta(u)] <= g.PSB[ta(u + 1)], g.PSB[ta(u + 1)] <= g.PSB[ta(v.n)], tb(u + 1) <= tb(v.n), g.PSB[ta(u)] >= 0, tb(u) >= 0, tb(u + 1) >= 0), tags=C7, only=['rows are ordered', 'prefix sums are ordered', 'prefix sums are small'])
    L.by('position in the stream', And(k >= 0, k <= g.end(), Imp(more, k + 1 <= g.end())), tags=C7, only=[])
    L.by('arc at the position', Imp(more, And(g.CN[k] + Ite(g.new(k), I(1), I(0)) == g.CN[k + 1], g.MK[k + 1] == z3.Store(g.MK[k], g.XS[k], g.VS[k]))), tags=C7, only=['definition: stream step'])
    L.by('count to the end', And(g.CN[k] <= g.CN[g.end()], Imp(more, g.CN[k + 1] <= g.CN[g.end()])), tags=C7, only=['lemma: sequences growing by at most one'])


def _pathb_head(L):
    v = L.c.v; u = L.v('v'); a = L.off('arc_a'); b = L.off('arc_b'); g = v.g; ta = v.ta.at; more = b < v.tb.at(v.ha.at(a) + 1)
    g.stream(L, more, u, g.K(u, a, b), b)
    L.by('end of the second row', And(a >= 0, a < ta(v.n), g.PSB[a + 1] == g.PSB[a] + v.tb.at(v.ha.at(a) + 1) - v.tb.at(v.ha.at(a)), g.PSB[a] >= 0, g.PSB[a + 1] <= g.PSB[ta(u + 1)]), tags=C7, only=['rows are ordered', 'rows of the second graph', 'prefix sums are ordered', 'prefix sums are small'])
    _fits(L, g, more, g.K(u, a, b), u)


def _same(L, k, k2, name):
    g = L.c.v.g
    L.by('position after ' + name, k == k2, tags=C7, only=[])
    L.by('stream after ' + name, And(g.MK[k] == g.MK[k2], g.CN[k] == g.CN[k2]), tags=C7, only=[])


def _pathb_exit(L):
    v = L.c.v; u = L.v('v'); a = L.off('arc_a'); b = L.off('arc_b'); g = v.g
    _same(L, g.K(u, a, b), g.KA(u, a + 1), 'the second row')


def _force_exit(L):
    v = L.c.v; u = L.v('v'); b = L.off('v_arc_b'); g = v.g
    _same(L, g.KF(u, b), g.KA(u, v.ta.at(u)), 'the own arcs')


def _patha_exit(L):
    v = L.c.v; u = L.v('v'); a = L.off('arc_a'); g = v.g
    _same(L, g.KA(u, a), g.KR(u + 1), 'the row')


def _new_arc(L, pa, pb, k):
    v = L.c.v; g = v.g
    if v.w:
        q = L.c.v.g.CN[k]; x = v.hb.at(pb)
        for n, val in (('PA', pa), ('PB', pb)):
            L.setg(n, z3.Store(L.g(n), q, Ite(g.new(k), val, L.g(n)[q])))
        L.setg('L1', z3.Store(L.g('L1'), x, Ite(g.new(k), q, L.g('L1')[x])))


def _force_step(L):
    b = L.p('v_arc_b').off; u = L.v('v')
    _new_arc(L, I(-1), b, L.c.v.g.KF(u, b))


def _pathb_step(L):
    v = L.c.v; b = L.p('arc_b').off; a = L.off('arc_a'); u = L.v('v')
    _new_arc(L, a, b, v.g.K(u, a, b))


def _row_done(L):
    """after a row: its set of vertices"""
    v = L.c.v
    if not v.w:
        return
    u = L.p('v'); x, q = ivars('x', 'q')
    S1 = z3.Const('S1!%d' % uid(), AB); R2 = z3.Const('RO!%d' % uid(), AI)
    m0 = v.m.at
    L.assume_def(forall([x], S1[x] == And(0 <= x, x < v.n, m0(x) == u), [S1[x]]), 'ghost: vertices reached from the row')
    L.assume_def(forall([q], R2[q] == Ite(v.ot.at(u) <= q, u, L.g('RO')[q]), [R2[q]]), 'ghost: rows of the arcs')
    PA, PB = L.g('PA'), L.g('PB')
    L.by('arcs so far are paths', forall([q], Imp(And(0 <= q, q < v.ot.at(u + 1)), path_fact(v.ta.at, v.ha.at, v.tb.at, v.hb.at, L.c.a('force_loops'), R2[q], v.oh.at(q), PA[q], PB[q])), [v.oh.at(q)]), tags=C7,
         only=['every arc is a path', 'arcs of the row are paths', 'ghost: rows of the arcs'])
    L.setg('SET', z3.Store(L.g('SET'), u, S1)); L.setg('LOC', z3.Store(L.g('LOC'), u, L.g('L1'))); L.setg('RO', R2)


_ppl = {0: LoopSpec(_init)}
RG = ('PA', 'PB', 'L1')
for _b in (1, 5):
    _ppl[_b] = LoopSpec(_outer, ghosts=tuple(n for n, _ in GH) + ('L1',) if _b == 5 else (), ghost0=_outer_g0, step=_row_done)
    _ppl[_b + 1] = LoopSpec(_force, ghosts=RG if _b == 5 else (), head=_force_head, exit=_force_exit, step=_force_step)
    _ppl[_b + 2] = LoopSpec(_patha, ghosts=RG if _b == 5 else (), exit=_patha_exit)
    _ppl[_b + 3] = LoopSpec(_pathb, ghosts=RG if _b == 5 else (), head=_pathb_head, exit=_pathb_exit, step=_pathb_step)
r = reg('iscc_do_adjacency_product', _pp_pre, _pp_post, loops=_ppl, props=('C07', 'C12'))
r.variants = [{'w': a, 'f': b} for a in (False, True) for b in (False, True)]


# ---- the wrapper
def _ap_pre(c):
    v = c.v
    product_args(c, 'in_')
    v.out = c.struct('out_dg', mod=True)
    v.g = G(c, v.n, v.ta, v.ha, v.tb, v.hb, c.a('force_loops'))


def _ap_post(c):
    v = c.v; g = v.g; out = v.out; n = v.n; m = g.CN[g.end()]
    big = m > c.const('ISCC_ARCINDEX_MAX')

    def ok():
        c.adopt('iscc_do_adjacency_product', [n for n, _ in GH])
        c.fact('sizes', And(out('vertices') == n, out('max_arcs') == m), C7)
        ot = c.fresh(out.loc('tail_ptr'), n + 1)
        oh = c.fresh(out.loc('head'), m, null=(m == 0))
        for nm, f in valid_facts(n, m, ot.at, oh.at):
            c.fact('result: ' + nm, f, C7)
        c.fact('storage fits exactly', ot.at(n) == m, C7)
        W = _wit(c)
        for nm, f in product_facts(n, v.ta.at, v.ha.at, v.tb.at, v.hb.at, c.a('force_loops'), ot.at, oh.at, *[W[n] for n, _ in GH]):
            if nm == 'every arc is a path' and not c.producing():
                c.by(nm, f, tags=C7, only=['iscc_do_adjacency_product: every arc is a path', 'arcs kept', 'frame', 'realloc', 'rows are ordered'])
            else:
                c.fact(nm, f, C7)
    return [('ok', And(c.ret == EC(c, 'OK'), Not(big)), ok),
            ('error no memory', And(c.ret == EC(c, 'NO_MEMORY'), oom(c)), None),
            ('error too large', And(c.ret == EC(c, 'TOO_LARGE_PROBLEM'), big), None)]


def _ap_count(L):
    v = L.c.v; g = v.g; a = L.off('arc_a')
    return [('position', And(0 <= a, a <= v.ta.at(v.n))), ('counted', L.v('out_arcs_write') == g.PSB[a])]


def _ap_exit(L):
    v = L.c.v; g = v.g
    L.by('all arcs counted', And(g.PSB[v.ta.at(v.n)] >= 0, g.CN[g.end()] <= g.end(), g.CN[g.end()] >= 0, g.PSB[v.ta.at(v.n)] <= v.ta.at(v.n) * L.c.const('ISCC_ARCINDEX_MAX'), v.tb.at(v.n) >= 0), tags=C7,
         only=['lemma: sequences growing by at most one', 'prefix sums are small', 'rows are ordered'])


reg('iscc_adjacency_product', _ap_pre, _ap_post, loops={0: LoopSpec(_ap_count, ghost0=_sums0, exit=_ap_exit)}, props=('C07', 'C11', 'C12', 'C16'))
