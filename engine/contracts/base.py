"""Shared predicates and the registry of contracts."""
import z3
from vc import *
from contract import Contract, Ctx, SV, num_of_eq

REG = {}


def reg(name, pre, post=None, **kw):
    c = Contract(name, pre, post, **kw)
    if kw.get('fn'):
        c.label = name
    REG[name] = c
    return c


# ---------------------------------------------------------------- integer lemmas, each proved once per process over true multiplication
_NL = {}
_NLDEF = {
    'row': (3, lambda m, i, n, d: Imp(And(i >= 0, i < n, d >= 0), And(m(i, d) >= 0, m(i, d) + d <= m(n, d)))),
    'succ': (2, lambda m, i, d: m(i + 1, d) == m(i, d) + d),
    'one': (1, lambda m, i: m(i, I(1)) == i),
    'pos': (2, lambda m, i, j: Imp(And(i >= 1, j >= 1), And(m(i, j) >= i, m(i, j) >= j))),
    'bound': (4, lambda m, i, j, a, b: Imp(And(i >= 0, i <= a, j >= 0, j <= b), m(i, j) <= m(a, b))),
    'mono': (3, lambda m, i, n, d: Imp(And(i >= 0, i <= n, d >= 0), m(i, d) <= m(n, d))),
}


def nl(x, name, *args, over=None, pats=None):
    """assume an instance of a proved lemma; x is a Ctx, LCtx or State; over: quantified variables among the args"""
    k, f = _NLDEF[name]
    if name not in _NL:
        vs = [z3.Int('nl%d' % i) for i in range(k)]
        s = z3.Solver(); s.set('timeout', 20000)
        s.add(z3.Not(f(lambda a, b: a * b, *vs)))
        if s.check() != z3.unsat:
            raise Unsupported('arithmetic lemma %s not proved' % name)
        _NL[name] = True
    st = getattr(x, 'st', x)
    g = f(lambda a, b: mul(a, b), *[I(a) for a in args])
    st.assume(forall(over, g, pats) if over else g, 'arithmetic lemma ' + name)


_PR = {}


def proved(name, *obligations):
    """validity of closed formulas (base and step of an induction, a definable ghost), decided by the solver once per process"""
    if name not in _PR:
        for f in obligations:
            s = z3.Solver(); s.set('timeout', 20000)
            s.add(z3.Not(f))
            if s.check() != z3.unsat:
                raise Unsupported('lemma %s not proved' % name)
        _PR[name] = True


def rows_exist(st, T0, n, name='RO'):
    """a function giving the row of every arc position of a valid digraph exists: by induction over the rows"""
    AI = z3.ArraySort(IS, IS)
    t = z3.Array('t', IS, IS); R, R2 = z3.Consts('R R2', AI); i, p = z3.Ints('i p')

    def rf(tt, hi, RR, m):
        return z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < hi), z3.And(0 <= RR[p], RR[p] < m, tt[RR[p]] <= p, p < tt[RR[p] + 1])))
    proved('rows of arcs',
           z3.Implies(t[0] == 0, rf(t, t[0], R, 0)),
           z3.Implies(z3.And(i >= 0, t[i] <= t[i + 1], rf(t, t[i], R, i), z3.ForAll([p], R2[p] == z3.If(p >= t[i], i, R[p]))), rf(t, t[i + 1], R2, i + 1)))
    RO = z3.Const('%s!%d' % (name, uid()), AI)
    st.assume(forall([p], Imp(And(0 <= p, p < T0(n)), And(0 <= RO[p], RO[p] < n, T0(RO[p]) <= p, p < T0(RO[p] + 1))), [RO[p]]), 'row of an arc')
    return RO


def EC(c, n):
    return c.const('SCC_ER_' + n)


def oom(c):
    """in verification: an allocation failed on this path; at call sites: may be"""
    return B(c.st.oom) if c.mode == 'verify' else T


def NA(c):
    return c.const('SCC_CLABEL_NA')


def ivars(*n):
    return [z3.Int(x) for x in n]


# ---------------------------------------------------------------- digraphs
class DG:
    """valid digraph seen through views"""
    pass


def dg_shape(c, sv, mod_tail=False, mod_head=False, heap=True):
    """initialized digraph: storage sizes"""
    v, m = sv('vertices'), sv('max_arcs')
    c.fact('%s: vertex and arc counts in range' % sv.name, And(v >= 0, v <= c.const('ISCC_POINTINDEX_MAX'), m >= 0, m <= c.const('ISCC_ARCINDEX_MAX'), v < (1 << 62)))
    t = c.arr(sv.loc('tail_ptr'), v + 1, mod=mod_tail, heap=heap)
    h = c.arr(sv.loc('head'), m, null=(m == 0), mod=mod_head, heap=heap)
    return t, h


def valid_facts(v, m, T_, H_):
    """list of (name, formula) of digraph validity; T_(k), H_(k) read tail_ptr and head"""
    i, j, p = ivars('i', 'j', 'p')
    return [
        ('first row starts at 0', T_(I(0)) == 0),
        ('rows are ordered', forall([i, j], Imp(And(0 <= i, i <= j, j <= v), T_(i) <= T_(j)), [(T_(i), T_(j))])),
        ('arcs fit the storage', T_(v) <= m),
        ('heads are vertices', forall([p], Imp(And(0 <= p, p < T_(v)), And(H_(p) >= 0, H_(p) < v)), [H_(p)])),
    ]


def valid_dg(c, sv, t, h, tags=(), pre=''):
    for n, f in valid_facts(sv('vertices'), sv('max_arcs'), t.at, h.at):
        c.fact('%s%s: %s' % (pre, sv.name, n), f, tags)


def dg_in(c, loc, mod=False, mod_tail=False, mod_head=False, heap=True):
    """pointer to a valid digraph"""
    sv = c.struct(loc, mod=mod)
    t, h = dg_shape(c, sv, mod_tail, mod_head, heap)
    valid_dg(c, sv, t, h)
    return sv, t, h


def out_cell(c, loc, null=None):
    return c.struct(loc, null=null, mod=True)


def unchanged(c, av, st_from='old'):
    k = z3.Int('ku')
    return forall([k], Imp(And(0 <= k, k < av.n), av.at(k) == av.o(k)), [av.at(k)])
