"""scc_check_clustering (C04): the verdict is exact"""
from .base import *
from .core import clustering_arg, cl_valid
from .options import options_arg, opt_rules, opt_ok
C4 = ('C04',)
AI = z3.ArraySort(IS, IS)
# number of points k < i with label x [and type t / type below t]
CNT = z3.Function('count', AI, IS, IS, IS)
CTY = z3.Function('count_type', AI, AI, IS, IS, IS, IS)
CTB = z3.Function('count_types_below', AI, AI, IS, IS, IS, IS)
DV = z3.Function('cell_div', IS, IS, IS)
MD = z3.Function('cell_mod', IS, IS, IS)


def count_step(st, A, i):
    """recursive definition of CNT at i"""
    x = z3.Int('x')
    st.assume(forall([x], CNT(A, i + 1, x) == CNT(A, i, x) + Ite(A[i] == x, I(1), I(0)), [CNT(A, i + 1, x)]), 'definition of count')
    st.assume(forall([x], CNT(A, i + 1, x) == CNT(A, i, x) + Ite(A[i] == x, I(1), I(0)), [CNT(A, i, x)]), 'definition of count')


def count_0(st, A):
    x = z3.Int('x')
    st.assume(forall([x], CNT(A, I(0), x) == 0, [CNT(A, I(0), x)]), 'definition of count')


def _cc_pre(c):
    c.v.cl, c.v.lab = clustering_arg(c)
    c.v.o = options_arg(c)
    o, cl = c.v.o, c.v.cl
    c.v.out = c.struct('out_is_OK', null='maybe', mod=True)
    k = z3.Int('k')
    n = cl('num_data_points')
    c.fact('primary points are points of the clustering', Or(c.v.cl.isnull, o.pd.isnull, forall([k], Imp(And(0 <= k, k < o('len_primary_data_points')), And(o.pd.at(k) >= 0, o.pd.at(k) < n)), [o.pd.at(k)])))
    c.fact('type labels name types', Or(o.tl.isnull, forall([k], Imp(And(0 <= k, k < o('len_type_labels')), And(o.tl.at(k) >= 0, o.tl.at(k) < o('num_types'))), [o.tl.at(k)])))


def _cc_ghost(c):
    T_ = c.v.o('num_types'); K = c.v.cl('num_clusters'); x, z = ivars('x', 'z')
    nl(c, 'bound', T_, K, 65535, c.const('SCC_CLABEL_MAX'))
    nl(c, 'row', x, K, T_, over=[x], pats=[MUL(x, T_)])
    nl(c, 'mono', K, x, T_, over=[x], pats=[MUL(x, T_)])
    nl(c, 'succ', x, T_, over=[x], pats=[MUL(x, T_)])
    c.st.assume(MUL(I(0), T_) == 0, 'product with zero')
    c.st.assume(forall([z], Imp(And(z >= 0, T_ > 0), And(z == MUL(DV(T_, z), T_) + MD(T_, z), 0 <= MD(T_, z), MD(T_, z) < T_, DV(T_, z) >= 0)), [DV(T_, z)]), 'Euclidean division')


def good_labels(c, lim):
    i = z3.Int('i'); l = c.v.lab
    return forall([i], Imp(And(0 <= i, i < lim), Or(l.at(i) == NA(c), And(l.at(i) >= 0, l.at(i) < c.v.cl('num_clusters')))), [l.at(i)])


def good_primary(c, lim):
    i = z3.Int('i')
    return forall([i], Imp(And(0 <= i, i < lim), c.v.lab.at(c.v.o.pd.at(i)) != NA(c)), [c.v.o.pd.at(i)])


def _cc_post(c):
    cl, lab, o, out = c.v.cl, c.v.lab, c.v.o, c.v.out
    n = cl('num_data_points'); K = cl('num_clusters')
    oknull = Not(out.isnull)
    val = And(cl_valid(c, cl, lab), K > 0)
    i, x, t = ivars('i', 'x', 't')
    two = o('num_types') >= 2

    def verdict():
        opt_ok(c, o, n)
        if is_true(lab.isnull):
            c.fact('labels present', F, C4); return
        A, TL = lab.raw(), o.tl.raw()
        size = lambda x: CNT(A, n, x)
        c.fact('accepted: labels in range', Imp(out(''), good_labels(c, n)), C4)
        c.fact('accepted: primary points assigned', Imp(And(out(''), Not(o.pd.isnull)), good_primary(c, o('len_primary_data_points'))), C4)
        c.fact('accepted: cluster sizes', Imp(out(''), forall([x], Imp(And(0 <= x, x < K), size(x) >= o('size_constraint')), [size(x)])), C4)
        c.fact('accepted: type counts', Imp(And(out(''), two), forall([x, t], Imp(And(0 <= x, x < K, 0 <= t, t < o('num_types')), CTY(A, TL, n, x, t) >= o.tc.at(t)), [CTY(A, TL, n, x, t)])), C4)
        c.fact('refused: something is wrong', Or(out(''),
               exists([i], And(0 <= i, i < n, lab.at(i) != NA(c), Or(lab.at(i) < 0, lab.at(i) >= K)), [lab.at(i)]),
               And(Not(o.pd.isnull), exists([i], And(0 <= i, i < o('len_primary_data_points'), lab.at(o.pd.at(i)) == NA(c)), [o.pd.at(i)])),
               exists([x], And(0 <= x, x < K, size(x) < o('size_constraint')), [size(x)]),
               And(two, exists([x, t], And(0 <= x, x < K, 0 <= t, t < o('num_types'), CTY(A, TL, n, x, t) < o.tc.at(t)), [CTY(A, TL, n, x, t)]))), C4)

    def no():
        c.fact('not accepted', Not(out('')), C4)
    codes = {}
    for nm, (code, bad) in opt_rules(c, o, n).items():
        codes.setdefault(num(code), []).append(bad)
    r = [('no output', And(out.isnull, c.ret == EC(c, 'INVALID_INPUT')), None),
         ('invalid clustering', And(oknull, Not(val), c.ret == EC(c, 'INVALID_INPUT')), no),
         ('verdict', And(oknull, val, c.ret == EC(c, 'OK')), verdict),
         ('no memory', And(oknull, val, c.ret == EC(c, 'NO_MEMORY'), oom(c)), no)]
    for code, bads in codes.items():
        r.append(('options error %d' % code, And(oknull, val, c.ret == code, Not(oom(c)) if c.mode == 'verify' else T),
                  (lambda bads=bads: (no(), c.fact('an option rule with the returned code is violated', Or(*bads), C4 + ('C10',))))))
    return r


def _cc_sizes(L):
    c = L.c; A = c.v.lab.raw(); cs = L.arr('cluster_sizes'); x = z3.Int('x'); i = L.v('i')
    return [('counted', forall([x], Imp(And(0 <= x, x < c.v.cl('num_clusters')), And(cs.at(x) == CNT(A, i, x), cs.at(x) <= i, cs.at(x) >= 0)), [cs.at(x), CNT(A, i, x)]))]


def _cc_checked(L):
    c = L.c; A = c.v.lab.raw(); x = z3.Int('x'); i = L.v('i'); n = c.v.cl('num_data_points')
    return [('checked clusters', forall([x], Imp(And(0 <= x, x < i), CNT(A, n, x) >= c.v.o('size_constraint')), [CNT(A, n, x)]))]


def _cc_tsizes(L):
    c = L.c; A, TL = c.v.lab.raw(), c.v.o.tl.raw(); cs = L.arr('cluster_type_sizes'); x, z, t = ivars('x', 'z', 't'); i = L.v('i')
    Tn, K = c.v.o('num_types'), c.v.cl('num_clusters')
    cell = CTY(A, TL, i, DV(Tn, z), MD(Tn, z))
    return [('counted', forall([z], Imp(And(0 <= z, z < mul(K, Tn)), And(cs.at(z) == cell, cs.at(z) <= i, cs.at(z) >= 0)), [cs.at(z)])),
            ('running sums of types', forall([x, t], Imp(And(0 <= t, t < Tn), CTB(A, TL, i, x, t + 1) == CTB(A, TL, i, x, t) + CTY(A, TL, i, x, t)), [CTY(A, TL, i, x, t)])),
            ('sum over no type', forall([x], CTB(A, TL, i, x, I(0)) == 0, [CTB(A, TL, i, x, I(0))])),
            ('sum over all types', forall([x], CTB(A, TL, i, x, Tn) == CNT(A, i, x), [CNT(A, i, x), CTB(A, TL, i, x, Tn)])),
            ('sums bounded', forall([x, t], And(CTB(A, TL, i, x, t) >= 0, CTB(A, TL, i, x, t) <= i), [CTB(A, TL, i, x, t)])),
            ('counts not negative', forall([x, t], And(CTY(A, TL, i, x, t) >= 0, CTY(A, TL, i, x, t) <= i), [CTY(A, TL, i, x, t)]))]


def _cc_tdef(L, i):
    c = L.c; A, TL = c.v.lab.raw(), c.v.o.tl.raw(); x, t = ivars('x', 't')
    count_step(L.st, A, i)
    d1 = CTY(A, TL, i + 1, x, t) == CTY(A, TL, i, x, t) + Ite(And(A[i] == x, TL[i] == t), I(1), I(0))
    d2 = CTB(A, TL, i + 1, x, t) == CTB(A, TL, i, x, t) + Ite(And(A[i] == x, TL[i] < t), I(1), I(0))
    for d, f in ((d1, CTY), (d2, CTB)):
        L.assume_def(forall([x, t], d, [f(A, TL, i + 1, x, t)]), 'definition of count')


def _cc_t0(L):
    c = L.c; A, TL = c.v.lab.raw(), c.v.o.tl.raw(); x, t = ivars('x', 't')
    count_0(L.st, A)
    for f in (CTY, CTB):
        L.assume_def(forall([x, t], f(A, TL, I(0), x, t) == 0, [f(A, TL, I(0), x, t)]), 'definition of count')


def _cc_tstep(L):
    i = L.p('i'); _cc_tdef(L, i)
    c = L.c; lab, tl = c.v.lab, c.v.o.tl; Tn = c.v.o('num_types')
    z0 = mul(lab.at(i), Tn) + tl.at(i)
    L.assume_def(Imp(And(tl.at(i) >= 0, tl.at(i) < Tn, lab.at(i) >= 0), And(DV(Tn, z0) == lab.at(i), MD(Tn, z0) == tl.at(i))), 'Euclidean division')


def _cc_tchecked(L, full=None):
    c = L.c; A, TL = c.v.lab.raw(), c.v.o.tl.raw(); x, t = ivars('x', 't'); i = L.v('i'); n = c.v.cl('num_data_points'); Tn = c.v.o('num_types')
    return [('checked clusters', forall([x], Imp(And(0 <= x, x < i), CNT(A, n, x) >= c.v.o('size_constraint')), [CNT(A, n, x)])),
            ('checked types', forall([x, t], Imp(And(0 <= x, x < i, 0 <= t, t < Tn), CTY(A, TL, n, x, t) >= c.v.o.tc.at(t)), [CTY(A, TL, n, x, t)]))]


def _cc_tinner(L):
    c = L.c; A, TL = c.v.lab.raw(), c.v.o.tl.raw(); x, t = ivars('x', 't'); i = L.v('i'); n = c.v.cl('num_data_points'); Tn = c.v.o('num_types'); tt = L.v('t')
    return [('types checked so far', forall([t], Imp(And(0 <= t, t < tt), CTY(A, TL, n, i, t) >= c.v.o.tc.at(t)), [CTY(A, TL, n, i, t)])),
            ('total so far', L.v('tmp_total_size') == CTB(A, TL, n, i, tt))]


def _cc_cell(L, t):
    c = L.c; A, TL = c.v.lab.raw(), c.v.o.tl.raw(); Tn = c.v.o('num_types'); i = L.v('i'); n = c.v.cl('num_data_points')
    z = z3.Int('z')
    L.assume_def(forall([z], Imp(And(z >= mul(i, Tn), z < mul(i, Tn) + Tn), And(DV(Tn, z) == i, MD(Tn, z) == z - mul(i, Tn))), [DV(Tn, z)]), 'Euclidean division')


def _cc_labs(L):
    return [('labels in range', good_labels(L.c, L.v('i')))]


def _cc_prim(L):
    return [('primary points assigned', good_primary(L.c, L.v('i')))]


def _need_row(L):
    c = L.c; Tn = c.v.o('num_types')
    _cc_cell(L, None)


reg('scc_check_clustering', _cc_pre, _cc_post, ghost=_cc_ghost,
    loops={0: LoopSpec(_cc_labs), 1: LoopSpec(_cc_prim),
           2: LoopSpec(_cc_sizes, ghost0=lambda L: count_0(L.st, L.c.v.lab.raw()), step=lambda L: count_step(L.st, L.c.v.lab.raw(), L.p('i'))),
           3: LoopSpec(_cc_checked),
           4: LoopSpec(_cc_tsizes, ghost0=_cc_t0, step=_cc_tstep),
           5: LoopSpec(_cc_tchecked), 6: LoopSpec(_cc_tinner, ghost0=_need_row)},
    props=('C04', 'C10', 'C11', 'C12', 'C16'))
