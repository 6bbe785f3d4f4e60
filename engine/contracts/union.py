"""digraph_operations.c: union of several graphs, with rows deleted.

Row v of the union lists the vertices that rows v of the graphs lead to, in the order of their first occurrence.  FI, FP
give the first occurrence (graph, arc) of vertex x in rows v; C[v][i][p] counts the first occurrences before arc p of
graph i, CE[v][i] those before graph i, S[v] the arcs of the rows before v that are kept.
"""
from .base import *
from .dgops import AI, AB, AAI, AAB, C7
from .spi import nullness
from .product import row_facts_
from vc import PA as PA_
A3 = z3.ArraySort(IS, AAI)


class DGS:
    """array of valid graphs over n vertices"""

    def each(s, body, pats=None, vs=()):
        """body(i) for every graph of the array"""
        if isinstance(s.num, int):
            return And(*[forall(list(vs), body(I(i)), pats(I(i))) if vs else body(I(i)) for i in range(s.num)])
        i = z3.Int('i')
        return forall([i] + list(vs), Imp(And(0 <= i, i < s.num), body(i)), pats(i))

    def some(s, i, body):
        """graph i of the array has body(i)"""
        if isinstance(s.num, int):
            return Or(*[And(i == k, body(I(k))) for k in range(s.num)])
        return And(0 <= i, i < s.num, body(i))


def digraphs(c, loc, num):
    """pointer to an array of num valid graphs (not modified)"""
    e, st = c.eng, c.st
    get, setp, t = c.lookup_loc(loc); elem = t.to; nm = c.lname(loc); D = DGS(); D.num = num
    if c.producing():
        oid = e.new_obj(st, elem, num, 'param', nm, mode='A'); o = st.heap[oid]
        for f in ('head', 'tail_ptr'):
            o.c[f] = PA_('fam', o.c[f].objs, o.c[f].offs, o.c[f].nulls)
        st.assume(And(I(num) >= 0, mul(I(num), e.prog.sizeof(elem)) <= (1 << 63) - 1), 'object size')
        setp(Ptr(oid, 0))
    p = get()
    pn = 'call of %s: ' % c.name if c.mode == 'call' else ''
    if p.poison or p.fam() or p.obj == 0:
        e.oblige(st, 'mem', pn + 'pointer %s is valid' % nm, F, ('C12',)); raise Vacuous()
    o = e.os(st, p.obj)
    if o.elem is None or not o.elem.same(elem):
        raise Unsupported('%s: element type' % nm)
    if not c.producing():
        e.oblige(st, 'mem', pn + 'pointer %s covers the required elements' % nm, And(Not(e.isnull(p)), B(o.alive), p.off >= 0, add(p.off, num) <= o.len), ('C12',))
    c.objs.append(dict(p=p, n=I(num), mod=set(), name=nm, elem=elem, nc=F, av=None))
    top, arcs = c.const('ISCC_POINTINDEX_MAX'), c.const('ISCC_ARCINDEX_MAX')
    if o.mode == 'S':
        k = num if isinstance(num, int) else int(str(z3.simplify(num))) if z3.is_int_value(z3.simplify(I(num))) else None
        if k is None or k < 1:
            raise Unsupported('number of graphs')
        D.num = k; sv = [SV_(c, Ptr(p.obj, add(p.off, i)), elem, '%s[%d]' % (nm, i)) for i in range(k)]
        D.N = sv[0]('vertices'); ts, hs = [], []
        for s in sv:
            c.fact('%s: counts' % s.name, And(s('vertices') == D.N, D.N > 0, D.N <= top, s('max_arcs') >= 0, s('max_arcs') <= arcs))
            t_ = c.arr(s.loc('tail_ptr'), D.N + 1); h_ = c.arr(s.loc('head'), s('max_arcs'), null=s('max_arcs') == 0)
            ts.append(t_); hs.append(h_); valid_dg(c, s, t_, h_)

        def pick(avs):
            def f(i, k):
                n_ = num_(i)
                if n_ is not None:
                    return avs[n_].at(k)
                r = avs[-1].at(k)
                for j in range(len(avs) - 2, -1, -1):
                    r = Ite(i == j, avs[j].at(k), r)
                return r
            return f
        D.T, D.H = pick(ts), pick(hs); D.keys = None
        return D
    if not isinstance(o.c['tail_ptr'], PA_) or o.c['tail_ptr'].target != 'fam' or num_(p.off) != 0:
        if not (isinstance(o.c['tail_ptr'], PA_) and o.c['tail_ptr'].target is None and e.collect):
            raise Unsupported('%s is not an array of graphs of its own' % nm)
    tf, hf = [dict(leafs(elem))[f].to for f in ('tail_ptr', 'head')]
    mt, mh = [e.fam_get(st, e.fam_key(x)) for x in (tf, hf)]
    pt, ph, ma, vt = o.c['tail_ptr'], o.c['head'], o.c['max_arcs'], o.c['vertices']
    S_ = z3.Select
    D.T = lambda i, k: S_(S_(mt, S_(pt.objs, i)), k)
    D.H = lambda i, k: S_(S_(mh, S_(ph.objs, i)), k)
    D.keys = (mt, mh, pt.objs, ph.objs)
    D.MA = lambda i: S_(ma, i)
    D.N = N = S_(vt, I(0))
    al, ln = e.fam_get(st, 'alive'), e.fam_get(st, 'len')
    i, a, b, k = ivars('i', 'a', 'b', 'k'); g = And(0 <= i, i < num)
    c.fact('%s: vertices' % nm, And(N > 0, N <= top, N < (1 << 62)))
    c.fact('%s: counts' % nm, forall([i], Imp(g, And(S_(vt, i) == N, S_(ma, i) >= 0, S_(ma, i) <= arcs)), [S_(vt, i), S_(ma, i), S_(pt.objs, i), S_(ph.objs, i)]))
    fm = lambda n, f: c.fact('%s: %s' % (nm, n), f, ('C12',), kind='mem')
    fm('rows are live', forall([i], Imp(g, And(S_(pt.objs, i) > 0, S_(al, S_(pt.objs, i)), S_(ln, S_(pt.objs, i)) == N + 1, S_(pt.offs, i) == 0)), [S_(pt.objs, i), S_(pt.offs, i)]))
    fm('arcs are live', forall([i], Imp(g, And((S_(ph.objs, i) == 0) == (S_(ma, i) == 0), S_(ph.offs, i) == 0, Imp(S_(ma, i) > 0, And(S_(ph.objs, i) > 0, S_(al, S_(ph.objs, i)), S_(ln, S_(ph.objs, i)) == S_(ma, i))))), [S_(ph.objs, i), S_(ph.offs, i)]))
    c.fact('%s: first row starts at 0' % nm, forall([i], Imp(g, D.T(i, I(0)) == 0), [S_(mt, S_(pt.objs, i)), D.T(i, I(0))]))
    c.fact('%s: rows are ordered' % nm, forall([i, a, b], Imp(And(g, 0 <= a, a <= b, b <= N), D.T(i, a) <= D.T(i, b)), [(D.T(i, a), D.T(i, b))]))
    c.fact('%s: arcs fit the storage' % nm, forall([i], Imp(g, D.T(i, N) <= D.MA(i)), [D.T(i, N), S_(mt, S_(pt.objs, i))]))
    c.fact('%s: heads are vertices' % nm, forall([i, k], Imp(And(g, 0 <= k, k < D.T(i, N)), And(D.H(i, k) >= 0, D.H(i, k) < N)), [D.H(i, k)]))
    return D


def num_(x):
    x = z3.simplify(I(x))
    return x.as_long() if z3.is_int_value(x) else None


from contract import SV as SV_

KS = (AAI, AAI, AI, AI, IS, IS, BS, AB)
UF = {n: z3.Function('union.' + n, *KS, s) for n, s in (('S', AI), ('CE', AAI), ('C', A3), ('FI', AAI), ('FP', AAI), ('LOC', AAI))}
KPF = z3.Function('union.KP', AI, IS, AB)
KIF = z3.Function('union.KI', AI, IS, AI)


class U:
    """the union of an array of graphs, its arcs in the order they are found"""

    def __init__(s, c, D, keep, tails, ln):
        s.c, s.D, s.keep, s.n, s.num = c, D, keep, D.N, D.num
        st = c.st; s.T, s.H = D.T, D.H; s.tails, s.ln = tails, ln
        d = lambda f, why: st.assume(f, 'definition: ' + why)
        v, i, p, x, j = ivars('v', 'i', 'p', 'x', 'j')

        def nm(n, e):
            w = z3.Const('%s!%d' % (n, uid()), e.sort()); st.assume(w == e, 'ghost'); return w
        if tails is None:
            s.KP = z3.K(IS, T); s.kept = lambda v: T
        else:
            s.KP = nm('KP', KPF(tails.raw(), ln)); s.KI = nm('KI', KIF(tails.raw(), ln)); s.kept = lambda v: s.KP[v]
            d(forall([j], Imp(And(0 <= j, j < ln), s.KP[tails.at(j)]), [tails.at(j)]), 'kept rows')
            d(forall([v], Imp(s.KP[v], And(0 <= s.KI[v], s.KI[v] < ln, tails.at(s.KI[v]) == v)), [s.KP[v]]), 'place of kept rows')
        k = D.keys + (I(D.num), D.N, keep, s.KP)
        s.S, s.CE, s.C, s.FI, s.FP, s.LOC = [nm(n, UF[n](*k)) for n in ('S', 'CE', 'C', 'FI', 'FP', 'LOC')]
        d(And(s.S[0] == 0), 'no rows')
        d(forall([v], Imp(v >= 0, s.S[v + 1] == s.S[v] + Ite(s.kept(v), s.CE[v][s.num], I(0))), [s.CE[v]]), 'arcs of the rows')
        d(forall([v], s.CE[v][0] == 0, [s.CE[v]]), 'no graphs')
        d(forall([v, i], Imp(And(0 <= i, i < s.num), And(s.C[v][i][s.T(i, v)] == s.CE[v][i], s.C[v][i][s.T(i, v + 1)] == s.CE[v][i + 1])), [(s.C[v], s.CE[v][i])]), 'first occurrences before a graph')
        d(forall([v, i, p], Imp(And(0 <= i, i < s.num, s.T(i, v) <= p, p < s.T(i, v + 1)), s.C[v][i][p + 1] == s.C[v][i][p] + Ite(s.new(v, i, p), I(1), I(0))), [(s.C[v][i][p], s.H(i, p))]), 'first occurrences')
        fi, fp = s.FI[v][x], s.FP[v][x]
        d(forall([v, x], And(fi >= 0, Imp(fi < s.num, And(s.T(fi, v) <= fp, fp < s.T(fi, v + 1), s.H(fi, fp) == x))), [fi]), 'first occurrence of a vertex')
        d(forall([v, x], s.LOC[v][x] == s.S[v] + s.C[v][fi][fp], [s.LOC[v][x]]), 'place of the arc')

    def new(s, v, i, p):
        x = s.H(i, p)
        return And(s.FI[v][x] == i, s.FP[v][x] == p, s.own(v, x))

    def own(s, v, x):
        return Or(s.keep, x != v)

    def first(s, L, more, v, i, p):
        """an occurrence is not before the first one"""
        x = s.H(i, p); fi, fp = s.FI[v][x], s.FP[v][x]
        L.assume_def(Imp(more, And(fi <= i, Imp(fi == i, fp <= p))), 'definition: first occurrence')

    def before(s, v, x, i, p):
        return Or(s.FI[v][x] < i, And(s.FI[v][x] == i, s.FP[v][x] < p))

    def sums(s, x, tags=C7):
        """the counts are ordered"""
        v, i, a, b, j, p = ivars('v', 'i', 'a', 'b', 'j', 'p'); C, CE, S, T_, H = s.C, s.CE, s.S, s.T, s.H
        keep = lambda *n: dict(steps=lambda: x.st.pc.__setitem__(slice(None), [y for y in x.st.pc if not y.q or any(y.n == m or y.n.endswith(': ' + m) for m in n)]))
        gv = And(0 <= v, v < s.n); gi = And(0 <= i, i < s.num)
        x.by('rows are in range', forall([i, v], Imp(And(gi, gv), And(0 <= T_(i, v), T_(i, v) <= T_(i, v + 1), T_(i, v + 1) <= T_(i, s.n))), [T_(i, v + 1)]), tags=tags, only=['rows are ordered', 'first row starts at 0'])
        has = lambda p: Imp(p < T_(i, v + 1), H(i, p) >= 0)
        x.induct('counts within a graph', [v, i, a], p, a, T_(i, v + 1), lambda p: And(C[v][i][a] <= C[v][i][p], C[v][i][p] <= C[v][i][a] + (p - a), has(p)), [(C[v][i][a], C[v][i][p], T_(i, v + 1))], tags,
                 guard=And(gv, gi, T_(i, v) <= a), **keep('first occurrences', 'rows are in range', 'heads are vertices'))
        x.by('counts of a graph', forall([v, i], Imp(And(gv, gi), And(C[v][i][T_(i, v)] == CE[v][i], C[v][i][T_(i, v + 1)] == CE[v][i + 1], CE[v][i] <= CE[v][i + 1], CE[v][i + 1] <= CE[v][i] + T_(i, v + 1) - T_(i, v))), [CE[v][i]]), tags=tags,
             only=['first occurrences before a graph', 'counts within a graph', 'rows are in range'])
        x.induct('counts of a row', [v, b], j, b, s.num, lambda j: CE[v][b] <= CE[v][j], [(CE[v][b], CE[v][j])], tags, guard=And(gv, b >= 0), **keep('counts of a graph'))
        x.by('counts are not negative', forall([v], Imp(gv, CE[v][s.num] >= 0), [CE[v]]), tags=tags, only=['counts of a row', 'no graphs'])
        x.induct('rows of the union', [a], j, a, s.n, lambda j: And(S[a] <= S[j], Imp(j < s.n, CE[j][s.num] >= 0)), [(S[a], S[j])], tags, guard=a >= 0, **keep('arcs of the rows', 'counts are not negative'))

    def gaps(s, x, tags=C7):
        """nothing is written between kept rows"""
        v, j, y = ivars('v', 'j', 'y'); S, KP, KI, tl, ln = s.S, s.KP, s.KI, s.tails.at, s.ln
        nxt = lambda j: Ite(j < ln, tl(j), s.n)
        keep = lambda *n: dict(steps=lambda: x.st.pc.__setitem__(slice(None), [y for y in x.st.pc if not y.q or any(y.n == m or y.n.endswith(': ' + m) for m in n)]))
        ns = ('arcs of the rows', 'place of kept rows', 'kept rows: sorted', 'counts are not negative')
        P = lambda z: lambda y: And(S[y] == S[z], Imp(y < s.n, CE_(s)[y][s.num] >= 0))
        x.induct('no arcs before the first kept row', [], y, I(0), nxt(I(0)), P(I(0)), [S[y]], tags, **keep(*ns, 'kept rows: vertices'))
        x.induct('no arcs between kept rows', [j], y, tl(j) + 1, nxt(j + 1), P(tl(j) + 1), [(tl(j), S[y])], tags, guard=And(0 <= j, j < ln), **keep(*ns, 'kept rows: vertices'))

    def SJ(s, j):
        return Ite(j < s.ln, s.S[s.tails.at(j)], s.S[s.n])


def CE_(s):
    return s.CE


def tails_arg(c, N, ptr='tails_to_keep', ln='len_tails_to_keep'):
    v = c.v
    v.tn = nullness(c, ptr, 'tn')
    v.ln = c.a(ln)
    i, j = ivars('i', 'j')
    v.tails = c.arr(ptr, v.ln, null=T if v.tn else F)
    if v.tn:
        v.tails = None
    else:
        c.fact('kept rows: number', And(v.ln >= 0, v.ln <= N))
        c.fact('kept rows: vertices', forall([i], Imp(And(0 <= i, i < v.ln), And(v.tails.at(i) >= 0, v.tails.at(i) < N)), [v.tails.at(i)]))
        c.fact('kept rows: sorted', forall([i, j], Imp(And(0 <= i, i < j, j < v.ln), v.tails.at(i) < v.tails.at(j)), [(v.tails.at(i), v.tails.at(j))]))


def num_arg(c, nm):
    n = c.a(nm)
    c.fact('number of graphs', And(n > 0, n <= (1 << 24)))
    return n


def _ud_pre(c):
    v = c.v
    v.D = digraphs(c, 'dgs', num_arg(c, 'num_dgs')); v.n = v.D.N
    tails_arg(c, v.n)
    v.m = c.arr('row_markers', v.n, mod=True)
    w = c.variant['w'] if c.mode == 'verify' else z3.is_true(z3.simplify(c.a('write')))
    v.w = w
    if c.mode == 'verify':
        c.fact('mode', c.a('write') == B(w))
    v.u = U(c, v.D, c.a('keep_self_loops'), v.tails, v.ln)
    c.fact('number of arcs is small', v.u.S[v.n] <= (1 << 62))
    if w:
        v.ot = c.arr('out_tail_ptr', v.n + 1, mod=True)
        v.cap = c.length('out_head', least=0)
        v.oh = c.arr('out_head', v.cap, mod=True, null=v.cap == 0)
        c.fact('room for the arcs', And(v.u.S[v.n] <= v.cap, v.cap <= c.const('ISCC_ARCINDEX_MAX')))
    else:
        c.null('out_tail_ptr'); c.null('out_head')


def union_facts(n, D, kept, keep, ot, oh, RO, FI, FP, LOC):
    """(ot, oh) is the union of the kept rows"""
    x, q, p, r = ivars('x', 'q', 'p', 'r'); u = RO[q]; fi, fp = FI[u][oh(q)], FP[u][oh(q)]
    own = lambda v, x: Or(keep, x != v)
    return [('every arc has its row', row_facts_(ot, ot(n), RO, n)),
            ('every arc comes from a graph', forall([q], Imp(And(0 <= q, q < ot(n)), And(kept(u), own(u, oh(q)), D.some(fi, lambda i: And(D.T(i, u) <= fp, fp < D.T(i, u + 1), D.H(i, fp) == oh(q))))), [oh(q)])),
            ('no arc twice', forall([q], Imp(And(0 <= q, q < ot(n)), LOC[u][oh(q)] == q), [oh(q)])),
            ('arcs are found', D.each(lambda i: Imp(And(0 <= r, r < n, kept(r), D.T(i, r) <= p, p < D.T(i, r + 1), own(r, D.H(i, p))), And(ot(r) <= LOC[r][D.H(i, p)], LOC[r][D.H(i, p)] < ot(r + 1), oh(LOC[r][D.H(i, p)]) == D.H(i, p))), lambda i: [(ot(r + 1), D.H(i, p)), (LOC[r], D.H(i, p))], [r, p]))]


UW = (('RO', AI), ('FI', AAI), ('FP', AAI), ('LOC', AAI))


def _ud_post(c):
    v = c.v; u = v.u

    def body():
        c.fact('number of arcs', c.ret == u.S[v.n], C7)
        if v.w:
            for nm, f in valid_facts(v.n, v.cap, v.ot.at, v.oh.at):
                c.fact('result: ' + nm, f, C7)
            c.fact('all arcs written', v.ot.at(v.n) == c.ret, C7)
            RO = c.witness('RO', AI)
            W = [c.witness(n, s, lambda n=n: getattr(u, n)) for n, s in UW[1:]]
            if c.producing():
                for w, n in zip(W, ('FI', 'FP', 'LOC')):
                    c.st.assume(w == getattr(u, n), 'witness')
            if not c.producing():
                x, i, p = ivars('x', 'i', 'p')
                c.st.assume(forall([x, i, p], Imp(And(0 <= i, i < u.num, u.T(i, x) <= p, p < u.T(i, x + 1)), u.FI[x][u.H(i, p)] <= i), [(u.LOC[x], u.H(i, p)), (v.ot.at(x + 1), u.H(i, p))]), 'definition: first occurrences come first')
            for nm, f in union_facts(v.n, v.D, u.kept, c.a('keep_self_loops'), v.ot.at, v.oh.at, RO, *W):
                c.fact(nm, f, C7)
    return [('done', T, body)]


# ---- loops
def _init(L):
    v = L.c.v; x = z3.Int('x'); u = L.v('v')
    return [('range', And(0 <= u, u <= v.n)), ('markers', forall([x], Imp(And(0 <= x, x < u), v.m.at(x) == L.c.const('ISCC_POINTINDEX_MAX_PI')), [v.m.at(x)]))]


def _sums0(L):
    L.c.v.u.sums(L)
    if not L.c.v.tn and not L.c.v.w:
        L.c.v.u.gaps(L)


def _ghosts0(L):
    if 'RO' not in L.st.ghosts:
        L.setg('RO', z3.Const('RO!%d' % uid(), AI))


def _between(L, top):
    """markers before a row: only those of rows below top"""
    v = L.c.v; m = v.m.at; x = z3.Int('x')
    return [('markers of earlier rows', forall([x], Imp(And(0 <= x, x < v.n), Or(m(x) < top, m(x) == L.c.const('ISCC_POINTINDEX_MAX_PI'))), [m(x)]))]


def _markers(L, r, seen):
    v = L.c.v; m = v.m.at; x = z3.Int('x')
    return [('marked', forall([x], Imp(And(0 <= x, x < v.n), And((m(x) == r) == Or(seen(x), And(Not(v.u.keep), x == r)), Or(m(x) <= r, m(x) == L.c.const('ISCC_POINTINDEX_MAX_PI')))), [m(x)]))]


def _done_rows(L, r, cnt):
    """rows below r are written"""
    v = L.c.v; u = v.u; ot, oh = v.ot.at, v.oh.at; RO = L.g('RO'); q, y, x = ivars('q', 'y', 'x')
    w = RO[q]
    return [('tails', forall([y], Imp(And(0 <= y, y <= r), ot(y) == u.S[y]), [ot(y)])),
            ('heads are vertices', forall([q], Imp(And(0 <= q, q < cnt), And(oh(q) >= 0, oh(q) < v.n)), [oh(q)])),
            ('arcs have rows', forall([q], Imp(And(0 <= q, q < u.S[r]), And(0 <= w, w < r, u.S[w] <= q, q < u.S[w + 1])), [w])),
            ('arcs come from graphs', forall([q], Imp(And(0 <= q, q < u.S[r]), And(u.kept(w), u.own(w, oh(q)), u.FI[w][oh(q)] < u.num, u.LOC[w][oh(q)] == q)), [oh(q)])),
            ('first occurrences have arcs', forall([y, x], Imp(And(0 <= y, y < r, u.kept(y), u.FI[y][x] < u.num, u.own(y, x)), And(u.S[y] <= u.LOC[y][x], u.LOC[y][x] < u.S[y + 1], oh(u.LOC[y][x]) == x)), [u.LOC[y][x]]))]


def _row(L, r, cnt, seen):
    """the row being written"""
    v = L.c.v; u = v.u; oh = v.oh.at; RO = L.g('RO'); q, x = ivars('q', 'x')
    return [('arcs of this row', forall([q], Imp(And(u.S[r] <= q, q < cnt), And(RO[q] == r, u.own(r, oh(q)), seen(oh(q)), u.LOC[r][oh(q)] == q)), [oh(q), RO[q]])),
            ('vertices seen have arcs', forall([x], Imp(And(seen(x), u.own(r, x)), And(u.S[r] <= u.LOC[r][x], u.LOC[r][x] < cnt, oh(u.LOC[r][x]) == x)), [u.LOC[r][x]]))]


def _rows(kind):
    """kind: 0 count, 1 count kept rows, 2 write, 3 write kept rows"""
    def inv(L):
        v = L.c.v; u = v.u; r = L.v('v'); cnt = L.v('counter')
        if kind == 1:
            return [('range', And(0 <= r, r <= v.ln)), ('counter', cnt == u.SJ(r))] + [('markers of earlier rows', forall([z3.Int('x')], Imp(And(0 <= z3.Int('x'), z3.Int('x') < v.n), Or(v.m.at(z3.Int('x')) == L.c.const('ISCC_POINTINDEX_MAX_PI'), And(r > 0, v.m.at(z3.Int('x')) <= v.tails.at(r - 1)))), [v.m.at(z3.Int('x'))]))]
        f = [('range', And(0 <= r, r <= v.n)), ('counter', cnt == u.S[r])] + _between(L, r)
        if kind >= 2:
            f += _done_rows(L, r, cnt)
        if kind == 3:
            j = L.off('next_tail_to_keep'); i = z3.Int('i')
            f += [('next row to keep', And(0 <= j, j <= v.ln)), ('rows to keep so far', forall([i], Imp(And(0 <= i, i < v.ln), (v.tails.at(i) < r) == (i < j)), [v.tails.at(i)]))]
        return f
    return inv


def _here(L, kind):
    v = L.c.v
    return v.tails.at(L.v('v')) if kind == 1 else L.v('v')


def _graphs(kind):
    def inv(L):
        v = L.c.v; u = v.u; r = _here(L, kind); cnt = L.v('counter'); i = L.v('i'); seen = lambda x: u.FI[r][x] < i
        f = [('graph', And(0 <= i, i <= u.num)), ('counter', cnt == u.S[r] + u.CE[r][i])] + _markers(L, r, seen)
        if kind >= 2:
            f += _done_rows(L, r, cnt) + _row(L, r, cnt, seen)
        return f
    return inv


def _arcs(kind):
    def inv(L):
        v = L.c.v; u = v.u; r = _here(L, kind); cnt = L.v('counter'); i = L.v('i'); p = L.off('arc_i'); seen = lambda x: u.before(r, x, i, p)
        f = [('position in the row', And(u.T(i, r) <= p, p <= u.T(i, r + 1))), ('counter', cnt == u.S[r] + u.C[r][i][p])] + _markers(L, r, seen)
        if kind >= 2:
            f += _done_rows(L, r, cnt) + _row(L, r, cnt, seen)
        return f
    return inv


def _arcs_head(kind):
    def head(L):
        v = L.c.v; u = v.u; r = _here(L, kind); i = L.v('i'); p = L.off('arc_i'); more = p < u.T(i, r + 1)
        x = u.H(i, p); y = z3.Int('y')
        u.first(L, more, r, i, p)
        L.by('arcs of the row are arcs of the graph', And(u.T(i, r) >= 0, u.T(i, r + 1) <= u.T(i, u.n)), tags=C7, only=['rows are in range', 'kept rows: vertices'])
        L.by('counted', And(Imp(more, u.C[r][i][p + 1] == u.C[r][i][p] + Ite(u.new(r, i, p), I(1), I(0)))), tags=C7, only=['first occurrences'])
        L.by('new unless seen', Imp(more, u.new(r, i, p) == And(Not(u.before(r, x, i, p)), u.own(r, x))), tags=C7, only=[])
        L.by('seen next', forall([y], Imp(more, u.before(r, y, i, p + 1) == Or(u.before(r, y, i, p), And(u.FI[r][y] == i, u.FP[r][y] == p, y == x))), [u.FI[r][y], u.FP[r][y]]), tags=C7, only=['first occurrence of a vertex'])
        L.by('head', Imp(more, And(x >= 0, x < u.n)), tags=C7, only=['heads are vertices'])
        L.by('count to the end of the row', Imp(more, And(u.C[r][i][p + 1] <= u.CE[r][i + 1], u.CE[r][i + 1] <= u.CE[r][u.num], u.S[r + 1] == u.S[r] + u.CE[r][u.num], u.S[r + 1] <= u.S[u.n], u.S[r] >= 0)), tags=C7,
             only=['counts within a graph', 'counts of a graph', 'counts of a row', 'rows are in range', 'rows of the union', 'arcs of the rows', 'kept rows', 'no rows', 'first occurrences before a graph', 'kept rows: vertices'])
        L.by('marked unless new', Imp(more, (v.m.at(x) != r) == u.new(r, i, p)), tags=C7, only=['marked'])
        L.by('place of a new arc', Imp(And(more, u.new(r, i, p)), u.LOC[r][x] == u.S[r] + u.C[r][i][p]), tags=C7, only=['place of the arc'])
    return head


def _arcs_step(kind):
    def step(L):
        if kind >= 2:
            u = L.c.v.u; r = L.v('v'); i = L.v('i'); p = L.p('arc_i').off; q = L.p('counter')
            L.setg('RO', z3.Store(L.g('RO'), q, Ite(u.new(r, i, p), r, L.g('RO')[q])))
    return step


def _graphs_exit(kind):
    def ex(L):
        u = L.c.v.u; r = _here(L, kind)
        L.by('arcs to the next row', Imp(u.kept(r), And(u.S[r + 1] == u.S[r] + u.CE[r][u.num], u.CE[r][u.num] >= 0)), tags=C7, only=['arcs of the rows', 'counts are not negative', 'kept rows: vertices'])
        cnt = L.v('counter')
        L.by('counter fits', And(0 <= u.S[r], u.S[r] <= cnt, Imp(u.kept(r), And(cnt == u.S[r + 1], cnt <= u.S[u.n]))), tags=C7, only=['rows of the union', 'no rows', 'kept rows: vertices'])
    return ex


_l = {0: LoopSpec(_init, ghost0=lambda L: (_ghosts0(L), _sums0(L)))}
for _k, _b in ((0, 1), (1, 4), (2, 7), (3, 10)):
    _gh = ('RO',) if _k >= 2 else ()
    _l[_b] = LoopSpec(_rows(_k), ghosts=_gh)
    _l[_b + 1] = LoopSpec(_graphs(_k), ghosts=_gh, exit=_graphs_exit(_k))
    _l[_b + 2] = LoopSpec(_arcs(_k), ghosts=_gh, head=_arcs_head(_k), step=_arcs_step(_k))
r = reg('iscc_do_union_and_delete', _ud_pre, _ud_post, loops=_l, props=('C07', 'C12'))
r.variants = [{'w': a, 'tn': b} for a in (False, True) for b in (True, False)]


# ---- the wrapper
def _uw_pre(c):
    v = c.v
    v.D = digraphs(c, 'in_dgs', num_arg(c, 'num_in_dgs')); v.n = v.D.N
    tails_arg(c, v.n)
    v.out = c.struct('out_dg', mod=True)
    if c.mode == 'verify':
        v.u = U(c, v.D, c.a('keep_self_loops'), v.tails, v.ln)


def _uw_post(c):
    v = c.v; out = v.out; n = v.n
    m = c.witness('arcs', IS, lambda: v.u.S[n])
    top = c.const('ISCC_ARCINDEX_MAX')

    def ok():
        if not c.producing():
            c.adopt('iscc_do_union_and_delete', ['RO'])
        RO = c.witness('RO', AI)
        FI, FP, LOC = [c.witness(w, s, lambda w=w: getattr(v.u, w)) for w, s in UW[1:]]
        c.fact('sizes', And(out('vertices') == n, out('max_arcs') == m), C7)
        ot = c.fresh(out.loc('tail_ptr'), n + 1)
        oh = c.fresh(out.loc('head'), m, null=(m == 0))
        for nm, f in valid_facts(n, m, ot.at, oh.at):
            c.fact('result: ' + nm, f, C7)
        c.fact('storage fits exactly', ot.at(n) == m, C7)
        if c.producing() and not v.tn:
            KP = c.witness('KP', AB); KI = c.witness('KI', AI); kept = lambda y: KP[y]
        elif not v.tn:
            KP, KI = v.u.KP, v.u.KI; kept = lambda y: KP[y]
        else:
            kept = lambda y: T
        if not v.tn:
            x, j = ivars('x', 'j')
            c.fact('kept rows', forall([j], Imp(And(0 <= j, j < v.ln), KP[v.tails.at(j)]), [v.tails.at(j)]), C7)
            c.fact('place of kept rows', forall([x], Imp(KP[x], And(0 <= KI[x], KI[x] < v.ln, v.tails.at(KI[x]) == x)), [KP[x]]), C7)
            c.v.KP, c.v.KI = KP, KI
        for nm, f in union_facts(n, v.D, kept, c.a('keep_self_loops'), ot.at, oh.at, RO, FI, FP, LOC):
            if nm in ('every arc comes from a graph', 'arcs are found') and not c.producing():
                c.by(nm, f, tags=C7, only=['iscc_do_union_and_delete: ' + nm, 'arcs kept', 'frame', 'realloc', 'rows are ordered', 'iscc_do_union_and_delete: every arc has its row'])
            else:
                c.fact(nm, f, C7)
    return [('ok', And(c.ret == EC(c, 'OK'), m <= top), ok),
            ('error no memory', And(c.ret == EC(c, 'NO_MEMORY'), oom(c)), None),
            ('error too large', And(c.ret == EC(c, 'TOO_LARGE_PROBLEM'), m > top), None)]


PSF = z3.Function('union.PS', AAI, AI, AAI)


def _uw_count(L):
    v = L.c.v; i = L.v('i'); PS = L.g('PS')
    return [('graph', And(0 <= i, i <= v.u.num)), ('counted', L.v('out_arcs_write') == PS[v.n][i])]


def _uw_sums(L):
    """the arcs of the union are no more than those of the graphs"""
    v = L.c.v; u = v.u; top = L.c.const('ISCC_ARCINDEX_MAX'); y, i, j = ivars('y', 'i', 'j'); T_, CE, S, n, num = u.T, u.CE, u.S, u.n, u.num
    if 'PS' in L.st.ghosts:
        return
    u.sums(L)
    L.setg('PS', PSF(v.D.keys[0], v.D.keys[2])); PS = L.g('PS')
    L.assume_def(forall([y], PS[y][0] == 0, [PS[y]]), 'definition: no graphs summed')
    L.assume_def(forall([y, i], Imp(i >= 0, PS[y][i + 1] == PS[y][i] + T_(i, y)), [(PS[y][i], T_(i, y))]), 'definition: arcs before row y summed')
    keep = lambda *n: dict(steps=lambda: L.st.pc.__setitem__(slice(None), [y for y in L.st.pc if not y.q or any(y.n == m or y.n.endswith(': ' + m) for m in n)]))
    L.by('rows of a graph', forall([y, i], Imp(And(0 <= y, y <= n, 0 <= i, i < num), And(0 <= T_(i, y), T_(i, y) <= top)), [T_(i, y)]), tags=C7, only=['rows are ordered', 'first row starts at 0', 'arcs fit the storage', 'in_dgs: counts'])
    gy = And(0 <= y, y <= n); has = lambda j: Imp(j < num, T_(j, y) >= 0)
    L.induct('sums are small', [y], j, I(0), I(num), lambda j: And(PS[y][j] >= 0, PS[y][j] <= j * top, has(j)), [PS[y][j]], C7, guard=gy, **keep('rows of a graph', 'definition: no graphs summed', 'definition: arcs before row y summed', 'no graphs summed', 'arcs before row y summed'))
    has2 = lambda j: Imp(j < num, And(T_(j, y) >= 0, T_(j, y + 1) >= 0))
    L.induct('a row of the union is no longer', [y], j, I(0), I(num), lambda j: And(CE[y][j] <= PS[y + 1][j] - PS[y][j], has2(j)), [CE[y][j]], C7, guard=And(0 <= y, y < n), **keep('rows of a graph', 'counts of a graph', 'definition: no graphs summed', 'definition: arcs before row y summed', 'no graphs'))
    L.induct('the rows so far are no longer', [], y, I(0), n, lambda y: And(S[y] <= PS[y][num], Imp(y < n, CE[y][num] <= PS[y + 1][num] - PS[y][num])), [S[y]], C7, **keep('arcs of the rows', 'counts are not negative', 'a row of the union is no longer', 'sums are small', 'no rows'))
    L.by('number of arcs', And(0 <= S[n], S[n] <= PS[n][num], PS[n][num] <= num * top), tags=C7, only=['the rows so far are no longer', 'sums are small', 'rows of the union', 'no rows'])


r = reg('iscc_digraph_union_and_delete', _uw_pre, _uw_post, loops={0: LoopSpec(_uw_count, ghost0=_uw_sums)}, props=('C07', 'C11', 'C12', 'C16'))
r.variants = [{'tn': True}, {'tn': False}]
