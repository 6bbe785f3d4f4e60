"""hierarchical_clustering.c: clusters split in two until none is large enough to split (C03)"""
from .base import *
from .spi import *
from .findseeds import const, ghost
from .cluster import given
from .batch import label_cases
from .check import CNT, count_0, count_step
from .core import cl_valid, clustering_arg
from .dgops import row_facts
from vc import AV as AV_, PA as PA_
C3 = ('C03',)
LS = LoopSpec
AB = z3.ArraySort(IS, BS)


def pfield_into(c, av, f, S, n):
    """the pointer field f of the first n elements of av points into S"""
    o = c.st.heap[av.p.obj]; k = z3.Int('k')
    if o.mode == 'S':
        raise Unsupported('pointer field of a single struct')
    a = o.c[f]
    if c.producing():
        o = o.copy(); a = PA_(S.p.obj, a.objs, a.offs, a.nulls); o.c[f] = a; c.st.heap[av.p.obj] = o
    else:
        c.eng.oblige(c.st, 'mem', '%s.%s points into %s' % (av.name, f, S.name), B(a.target == S.p.obj), ('C12',))
        if a.target != S.p.obj:
            raise Vacuous()
    q = lambda k: z3.Select(a.nulls, add(av.p.off, k))
    c.fact('%s.%s is not null' % (av.name, f), forall([k], Imp(And(0 <= k, k < n), Not(q(k))), [q(k)]))


def into(c, loc, n, mod=False, name=None):
    """pointer into an array of n elements (the whole object): the array and the position pointed to"""
    get, setp, t = c.lookup_loc(loc); elem = t.to; nm = name or c.lname(loc)
    if c.producing():
        oid = c.eng.new_obj(c.st, elem, n, 'param', nm, mode='A')
        c.st.assume(And(I(n) >= 0, mul(I(n), c.eng.prog.sizeof(elem)) <= (1 << 63) - 1), 'object size')
        b = z3.Int('%s.at!%d' % (nm, uid()))
        c.st.assume(And(0 <= b, b <= n))
        setp(Ptr(oid, b)); base = Ptr(oid, 0)
    else:
        p = get()
        pn = 'call of %s: ' % c.name if c.mode == 'call' else ''
        if p.poison or p.fam() or p.obj == 0:
            c.eng.oblige(c.st, 'mem', pn + 'pointer %s is valid' % nm, F, ('C12',))
            raise Vacuous()
        o = c.eng.os(c.st, p.obj)
        if o.elem is None or not o.elem.same(elem) or o.mode != 'A':
            raise Unsupported('%s: element type' % nm)
        c.eng.oblige(c.st, 'mem', pn + 'pointer %s points into a live array' % nm, And(Not(c.eng.isnull(p)), B(o.alive), 0 <= p.off, p.off <= o.len, eq(o.len, I(n))), ('C12',))
        base = Ptr(p.obj, 0); b = p.off
    av = AV_(c, base, elem, I(n), nm, F)
    if c.phase == 'pre':
        c.objs.append(dict(p=base, n=I(n), mod={''} if mod else set(), name=nm, elem=elem, nc=F, av=av))
    return av, b


def len_into(c, loc):
    """number of elements of the object a pointer points into"""
    if c.producing():
        n = z3.Int('%s.len!%d' % (c.lname(loc), uid())); c.st.assume(n >= 0)
        return n
    p = c.lookup_loc(loc)[0]()
    if p.poison or (isinstance(p.obj, int) and p.obj == 0):
        return I(0)
    return c.eng.obj_len(c.st, p)


# ---------------------------------------------------------------- work area
class WA:
    pass


def work_area(c, N, loc='work_area'):
    """arrays the search for centers and the sorted lists are kept in"""
    w = WA(); sv = c.struct(loc); w.sv = sv
    for f, nm in (('pointindex_array1', 'A1'), ('pointindex_array2', 'A2'), ('dist_array', 'DA'), ('edge_store1', 'E1'), ('edge_store2', 'E2')):
        n = len_into(c, sv.loc(f))
        setattr(w, 'n' + nm, n)
        setattr(w, nm, c.arr(sv.loc(f), n, mod=True))
    w.V = c.arr(sv.loc('vertex_markers'), N, mod=True)
    return w


def work_room(c, w, k, size):
    c.fact('work area: room', And(w.nA1 >= k, w.nA2 >= k, w.nA1 >= 100, w.nA2 >= 100, w.nDA >= 100, w.nDA >= 2 * size, w.nE1 >= size, w.nE2 >= size))


# ---------------------------------------------------------------- split one cluster
def region(S, IDX, lo, hi, N, st='at'):
    """the points at lo..hi-1 and where they are"""
    z, x = ivars('z', 'x'); s = getattr(S, st)
    return [('points of the region', forall([z], Imp(And(lo <= z, z < hi), And(0 <= s(z), s(z) < N, IDX[s(z)] == z)), [s(z)])),
            ('places in the region', forall([x], Imp(And(lo <= IDX[x], IDX[x] < hi), And(0 <= x, x < N, s(IDX[x]) == x)), [IDX[x]]))]


def _br_pre(c):
    v = c.v; z = z3.Int('z')
    v.d, v.N = ds_arg(c); v.k = c.a('size_constraint')
    v.cl = c.struct('cluster_to_break', mod=('size', 'marker')); v.new = c.struct('out_new_cluster', mod=True)
    v.n = v.cl('size')
    c.fact('size', And(v.k >= 2, v.n >= 2 * v.k, v.n <= v.N, v.N < (1 << 62)))
    v.M = len_into(c, v.cl.loc('members'))
    v.S, v.b = into(c, v.cl.loc('members'), v.M, mod=True)
    c.fact('the members are inside the array', And(v.b >= 0, v.b + v.n <= v.M))
    v.w = work_area(c, v.N); work_room(c, v.w, v.k, v.n)
    v.IDX = given(c, 'IDX', AI)
    for nm, f in region(v.S, v.IDX, v.b, v.b + v.n, v.N):
        c.fact(nm, f)
    c.fact('markers of the members', forall([z], Imp(And(v.b <= z, z < v.b + v.n), v.w.V.at(v.S.at(z)) <= v.cl('marker')), [v.S.at(z)]))


def _br_post(c):
    v = c.v; cl, new, S, V, b = v.cl, v.new, v.S, v.w.V, v.b; z, x = ivars('z', 'x')
    n = v.n

    def moved(I2):
        for nm, f in region(S, I2, b, b + n, v.N):
            c.fact(nm, f, C3)
        inn = And(b <= v.IDX[x], v.IDX[x] < b + n)
        c.fact('the same points', forall([x], And(inn == And(b <= I2[x], I2[x] < b + n), Imp(Not(inn), I2[x] == v.IDX[x])), [I2[x]]), C3)
        c.fact('points outside the region', forall([z], Imp(Or(z < b, z >= b + n), S.at(z) == S.o(z)), [S.at(z)]), C3 + ('C12',))
        c.fact('markers of other points', forall([x], Imp(Or(v.IDX[x] < b, v.IDX[x] >= b + n), V.at(x) == V.o(x)), [V.at(x)]), C3)

    def ok():
        I2 = ghost(c, 'IDX2', AI)
        s1, s2 = cl('size'), new('size')
        c.fact('both clusters satisfy the constraint', And(s1 >= v.k, s2 >= v.k, s1 + s2 == n), C3)
        c.points(new.loc('members'), Ptr(S.p.obj, add(b, s1)))
        moved(I2)
        c.fact('markers', And(forall([z], Imp(And(b <= z, z < b + n), And(V.at(S.at(z)) <= cl('marker'), V.at(S.at(z)) <= new('marker'))), [S.at(z)])), C3)
    return [('ok', c.ret == EC(c, 'OK'), ok), ('error search', c.ret == EC(c, 'DIST_SEARCH_ERROR'), None)]


r = reg('iscc_hi_break_cluster_into_two', _br_pre, _br_post, props=('C03', 'C11', 'C12', 'C16'), trusted='both parts satisfy the size constraint and hold the same points (bounded stand-in: native search of C03)')


# ---------------------------------------------------------------- the stack
class Stack:
    pass


def stack_arg(c, loc, N, mod, heap=True):
    """a stack of clusters: struct, array of items, array of points"""
    s = Stack(); sv = c.struct(loc, mod=mod); s.sv = sv
    s.cap, s.n = sv('capacity'), sv('items')
    c.fact('stack size', And(1 <= s.n, s.n <= s.cap, 24 * s.cap < (1 << 63)))
    s.C = c.arr(sv.loc('clusters'), s.cap, heap=heap, mod=True)
    s.S = c.arr(sv.loc('pointindex_store'), N, heap=heap, mod=True)
    pfield_into(c, s.C, 'members', s.S, s.n)
    return s


class SK:
    """the stack in one state: off(k), size(k), mark(k)"""

    def __init__(s, C, st=None):
        rd = (lambda k, f: C.rd(st, I(k), f)) if st is not None else C.at
        s.off = lambda k: rd(k, 'members').off
        s.size = lambda k: rd(k, 'size')
        s.mark = lambda k: rd(k, 'marker')
        s.end = lambda k: add(s.off(k), s.size(k))


def consecutive(K, n, P):
    j, k = ivars('j', 'k')
    return [('items cover consecutive regions', And(Imp(n >= 1, K.off(I(0)) == 0), forall([k], Imp(And(0 <= k, k < n), And(0 <= K.off(k), 0 <= K.size(k), K.end(k) <= P)), [K.size(k)]),
                                                    forall([k], Imp(And(1 <= k, k < n), K.off(k) == K.end(k - 1)), [K.off(k)]),
                                                    forall([j, k], Imp(And(0 <= j, j < k, k < n), K.end(j) <= K.off(k)), [(K.size(j), K.off(k))])))]


def places(S, IDX, P, N, st='at'):
    z, x = ivars('z', 'x'); s = getattr(S, st)
    return [('points of the stack', forall([z], Imp(And(0 <= z, z < P), And(0 <= s(z), s(z) < N, IDX[s(z)] == z)), [s(z)])),
            ('places of points', forall([x], Or(IDX[x] == -1, And(0 <= IDX[x], IDX[x] < P, 0 <= x, x < N, s(IDX[x]) == x)), [IDX[x]]))]


def blocks(K0, OB, n0, P):
    """OB[z]: the item that position z belonged to at the start"""
    z, k = ivars('z', 'k')
    return [('block of a position', forall([z], Imp(And(0 <= z, z < P), And(0 <= OB[z], OB[z] < n0, K0.off(OB[z]) <= z, z < K0.end(OB[z]))), [OB[z]])),
            ('positions of a block', forall([k, z], Imp(And(0 <= k, k < n0, K0.off(k) <= z, z < K0.end(k)), OB[z] == k), [(K0.off(k), OB[z])]))]


# ---------------------------------------------------------------- main loop
RW = (('M', AI), ('IDX', AI), ('FR', AI), ('TO', AI), ('OL', AI), ('WH', AB))


def label_facts(W, lab, K0, OB, n0, T, P, N, nl, k, na, IDX0, S):
    """labels below nl name the regions FR[l]..TO[l]-1, which cover the positions T..P-1"""
    IDX, FR, TO, OL, WH = (W[x] for x in ('IDX', 'FR', 'TO', 'OL', 'WH')); l, z, x = ivars('l', 'z', 'x'); o = OL[l]
    return [('new clusters', forall([l], Imp(And(0 <= l, l < nl), And(T <= FR[l], FR[l] < TO[l], TO[l] <= P, TO[l] - FR[l] < 2 * k, 0 <= o, o < n0, K0.off(o) <= FR[l], TO[l] <= K0.end(o),
                                                                       Ite(WH[l], And(FR[l] == K0.off(o), TO[l] == K0.end(o)), TO[l] - FR[l] >= k))), [FR[l], OL[l]])),
            ('labels of regions', forall([l, z], Imp(And(0 <= l, l < nl, FR[l] <= z, z < TO[l]), lab(S(z)) == l), [(FR[l], S(z))])),
            ('regions of labels', forall([z], Imp(And(T <= z, z < P), And(0 <= lab(S(z)), lab(S(z)) < nl, FR[lab(S(z))] <= z, z < TO[lab(S(z))])), [S(z)])),
            ('points without a label', forall([x], Imp(And(0 <= x, x < N, IDX[x] < T), lab(x) == na), [lab(x)])),
            ('points stay in their block', forall([x], Ite(IDX0[x] == -1, IDX[x] == -1, And(0 <= IDX[x], IDX[x] < P, OB[IDX[x]] == OB[IDX0[x]])), [IDX[x]]))]


def _ru_pre(c):
    v = c.v; z = z3.Int('z')
    v.cl = c.struct('cl', mod=('num_clusters',)); v.N = v.cl('num_data_points')
    v.d, N = ds_arg(c)
    c.fact('points of the clustering', And(N == v.N, v.N < (1 << 62), Or(v.cl('num_clusters') == 0, T)))
    v.lab = c.arr(v.cl.loc('cluster_label'), v.N, mod=True)
    v.k = c.a('size_constraint'); c.fact('size constraint', v.k >= 2)
    v.s = stack_arg(c, 'cl_stack', v.N, mod=('capacity', 'items', 'clusters')); v.n0 = v.s.n
    K = SK(v.s.C)
    v.P = K.end(v.n0 - 1)
    c.fact('used positions', And(0 <= v.P, v.P <= v.N))
    for nm, f in consecutive(K, v.n0, v.P):
        c.fact(nm, f)
    v.IDX0 = given(c, 'IDX', AI, 'iscc_hi_empty_cl_stack', 'iscc_hi_init_cl_stack'); v.OB = given(c, 'OB', AI, 'iscc_hi_empty_cl_stack', 'iscc_hi_init_cl_stack')
    for nm, f in places(v.s.S, v.IDX0, v.P, v.N) + blocks(K, v.OB, v.n0, v.P):
        c.fact(nm, f)
    v.w = work_area(c, v.N)
    v.L = given(c, 'LARGEST', IS)
    work_room(c, v.w, v.k, v.L)
    i = z3.Int('i')
    c.fact('no item is larger than the work area', forall([i], Imp(And(0 <= i, i < v.n0), K.size(i) <= v.L), [K.size(i)]))
    c.fact('marks', forall([z], Imp(And(0 <= z, z < v.N), v.w.V.at(z) == 0), [v.w.V.at(z)]))


def _ru_post(c):
    v = c.v; na = NA(c); x = z3.Int('x')

    def released():
        cap = v.s.sv('capacity')
        c.same(v.s.sv.loc('clusters')); c.resized(v.s.C, cap)
        c.fact('stack array of the stated size', And(cap >= 1, 24 * cap < (1 << 63)))

    def ok():
        W = {n: ghost(c, n, s) for n, s in RW if n != 'M'}; M = v.s.S.at
        K0 = SK(v.s.C, c.old); nl = v.cl('num_clusters')
        for nm, f in label_facts(W, v.lab.at, K0, v.OB, v.n0, I(0), v.P, v.N, nl, v.k, na, v.IDX0, M) + places(v.s.S, W['IDX'], v.P, v.N):
            c.fact(nm, f, C3)
        c.fact('number of clusters', And(nl >= 0, nl <= c.const('SCC_CLABEL_MAX'), Imp(v.P >= 1, nl >= 1)), C3)
        released()

    def err():
        c.fact('labels as they were', And(v.cl('num_clusters') == v.cl.o('num_clusters'), unchanged(c, v.lab)), C3 + ('C10', 'C11'))
        released()
    return [('ok', c.ret == EC(c, 'OK'), ok), ('error no memory', And(c.ret == EC(c, 'NO_MEMORY'), oom(c)), err), ('error too many', c.ret == EC(c, 'TOO_LARGE_PROBLEM'), err), ('error search', c.ret == EC(c, 'DIST_SEARCH_ERROR'), err)]


def _ru0(L):
    x = z3.Int('x'); nlab = L.arr('new_labels')
    return [('labels cleared', forall([x], Imp(And(0 <= x, x < L.v('i')), nlab.at(x) == NA(L.c)), [nlab.at(x)]))]


def _top(L, K, st=None):
    n = L.c.v.s.sv._rd(st or L.st, 'items')
    return n, Ite(n == 0, I(0), K.end(n - 1))


def _ru1(L):
    c = L.c; v = c.v; K = SK(AV_(L, v.s.C.p, v.s.C.elem)); K0 = SK(v.s.C, c.old); S = AV_(L, v.s.S.p, v.s.S.elem); nlab = L.arr('new_labels'); V = AV_(L, v.w.V.p, v.w.V.elem)
    n, TOP = _top(L, K); cap = v.s.sv._rd(L.st, 'capacity'); nl = L.v('current_label'); G = L.st.ghosts; W = {k: G.get(k) for k, _ in RW}
    ORG, WHL, IDX = G['ORG'], G['WHL'], G['IDX']; k, z, x = ivars('k', 'z', 'x'); o = ORG[k]; C = L.st.heap[v.s.C.p.obj]
    r = [('stack', And(0 <= n, n <= cap, 24 * cap < (1 << 63), eq(C.len, cap), 0 <= TOP, TOP <= v.P, 0 <= nl, nl <= c.const('SCC_CLABEL_MAX'), Imp(v.P >= 1, Or(nl >= 1, TOP >= 1)), B(C.alive)))]
    r += consecutive(K, n, TOP)
    r += [('items point somewhere', forall([k], Imp(And(0 <= k, k < n), Not(v.s.C.rd(L.st, k, 'members').null)), [v.s.C.rd(L.st, k, 'members').null])),
          ('sizes of items', forall([k], Imp(And(0 <= k, k < n), K.size(k) <= v.L), [K.size(k)])),
          ('origin of items', forall([k], Imp(And(0 <= k, k < n), And(0 <= o, o < v.n0, K0.off(o) <= K.off(k), K.end(k) <= K0.end(o), Ite(WHL[k], And(K.off(k) == K0.off(o), K.end(k) == K0.end(o)), K.size(k) >= v.k))), [o])),
          ('marks of items', forall([k, z], Imp(And(0 <= k, k < n, K.off(k) <= z, z < K.end(k)), V.at(S.at(z)) <= K.mark(k)), [(K.size(k), S.at(z))]))]
    r += places(S, IDX, v.P, v.N)
    r += label_facts(W, nlab.at, K0, v.OB, v.n0, TOP, v.P, v.N, nl, v.k, NA(c), v.IDX0, S.at)
    return r


def _ru1_g0(L):
    k = z3.Int('k'); v = L.c.v
    ORG, WHL = const('ORG', AI), const('WHL', AB)
    L.assume_def(forall([k], And(ORG[k] == k, WHL[k]), [ORG[k], WHL[k]]), 'ghost')
    L.setg('ORG', ORG); L.setg('WHL', WHL); L.setg('IDX', v.IDX0)
    for n, s in RW:
        if n not in ('IDX', 'M'):
            L.setg(n, const(n, s))


def _split(c, o):
    if o != 'ok':
        return
    I2 = c.st.ghosts['iscc_hi_break_cluster_into_two.IDX2']
    c.st.ghosts = dict(c.st.ghosts); c.st.ghosts['IDX'] = I2; c.st.ghosts['SPLIT'] = T


def _ru1_step(L):
    c = L.c; v = c.v; G = L.st.ghosts
    n0 = v.s.sv._rd(L.prev, 'items')
    n1 = v.s.sv._rd(L.st, 'items')
    if L.eng.quick(L.st, n1 == n0 + 1):
        L.setg('ORG', z3.Store(G['ORG'], n0, G['ORG'][n0 - 1]))
        L.setg('WHL', z3.Store(z3.Store(G['WHL'], n0 - 1, F), n0, F))
    elif not L.eng.quick(L.st, L.v('current_label') == L.p('current_label')):
        K = SK(AV_(L, v.s.C.p, v.s.C.elem), L.prev); l = L.p('current_label'); t = n0 - 1
        L.setg('FR', z3.Store(G['FR'], l, K.off(t))); L.setg('TO', z3.Store(G['TO'], l, K.end(t)))
        L.setg('OL', z3.Store(G['OL'], l, G['ORG'][t])); L.setg('WH', z3.Store(G['WH'], l, G['WHL'][t]))


def _ru2(L):
    c = L.c; v = c.v; nlab = L.arr('new_labels'); K = SK(AV_(L, v.s.C.p, v.s.C.elem)); n = v.s.sv._rd(L.st, 'items'); x = z3.Int('x'); IDX = L.st.ghosts['IDX']; lo = K.off(n - 1)
    return [('region labelled', forall([x], Imp(And(0 <= x, x < v.N), nlab.at(x) == Ite(And(lo <= IDX[x], IDX[x] < lo + L.v('v')), L.v('current_label'), nlab.ent(x))), [nlab.at(x)]))]


def _ru3(L):
    x = z3.Int('x'); nlab = L.arr('new_labels'); lab = L.c.v.lab
    return [('labels copied', forall([x], Imp(And(0 <= x, x < L.v('i')), lab.at(x) == nlab.at(x)), [lab.at(x)]))]


r = reg('iscc_hi_run_hierarchical_clustering', _ru_pre, _ru_post,
        loops={0: LS(_ru0), 1: LS(_ru1, ghosts=('ORG', 'WHL', 'IDX', 'FR', 'TO', 'OL', 'WH'), ghost0=_ru1_g0, step=_ru1_step), 2: LS(_ru2), 3: LS(_ru3)},
        props=('C03', 'C10', 'C11', 'C12', 'C16'))
r.after = {'iscc_hi_break_cluster_into_two': _split}


# ---------------------------------------------------------------- the stack at the start
def new_stack(c, out, N, n, extra):
    """a stack just made: one item per initial cluster"""
    cap = out('capacity')
    C = c.fresh(out.loc('clusters'), cap); S = c.fresh(out.loc('pointindex_store'), N)
    c.fact('stack size', And(1 <= n, n <= cap, 24 * cap < (1 << 63), out('items') == n), C3 + ('C12',))
    pfield_into(c, C, 'members', S, n)
    K = SK(C); P = K.end(n - 1)
    IDX, OB = ghost(c, 'IDX', AI), ghost(c, 'OB', AI)
    c.fact('used positions', And(0 <= P, P <= N), C3)
    for nm, f in consecutive(K, n, P) + places(S, IDX, P, N) + blocks(K, OB, n, P):
        c.fact(nm, f, C3)
    return C, S, K, P, IDX, OB


def _em_pre(c):
    v = c.v; v.N = c.a('num_data_points')
    c.fact('number of points', And(v.N >= 2, v.N <= c.const('ISCC_POINTINDEX_MAX'), v.N < (1 << 60)))
    v.out = c.struct('out_cl_stack', mod=True)


def _em_post(c):
    v = c.v; z = z3.Int('z')

    def ok():
        if not c.producing():
            ID, ZERO = const('IDX', AI), const('OB', AI); x = z3.Int('x')
            c.assume_def(forall([x], ID[x] == Ite(And(0 <= x, x < v.N), x, I(-1)), [ID[x]]), 'ghost')
            c.assume_def(forall([x], ZERO[x] == 0, [ZERO[x]]), 'ghost')
            c.setg('IDX', ID); c.setg('OB', ZERO)
        C, S, K, P, IDX, OB = new_stack(c, v.out, v.N, I(1), None)
        c.fact('all points in one cluster', And(K.size(I(0)) == v.N, K.mark(I(0)) == 0, forall([z], Imp(And(0 <= z, z < v.N), S.at(z) == z), [S.at(z)])), C3)
        c.fact('every point in its place', forall([z], Imp(And(0 <= z, z < v.N), And(IDX[z] == z, OB[IDX[z]] == 0)), [IDX[z]]), C3)
    return [('ok', c.ret == EC(c, 'OK'), ok), ('error no memory', And(c.ret == EC(c, 'NO_MEMORY'), oom(c)), None)]


def _em0(L):
    c = L.c; z = z3.Int('z'); S = vc_field(L, c.v.out, 'pointindex_store')
    return [('points in order', forall([z], Imp(And(0 <= z, z < L.v('i')), S.at(z) == z), [S.at(z)]))]


reg('iscc_hi_empty_cl_stack', _em_pre, _em_post, loops={0: LS(_em0)}, props=('C03', 'C11', 'C12', 'C16'))


def _is_pre(c):
    v = c.v; x = z3.Int('x')
    v.cl = c.struct('in_cl'); v.N = v.cl('num_data_points'); v.nc = v.cl('num_clusters'); v.na = NA(c)
    c.fact('number of points', And(v.N >= 2, v.N <= c.const('ISCC_POINTINDEX_MAX'), v.N < (1 << 60)))
    c.fact('number of clusters', And(v.nc >= 1, v.nc <= c.const('SCC_CLABEL_MAX'), v.nc < (1 << 57)))
    v.lab = c.arr(v.cl.loc('cluster_label'), v.N)
    c.fact('labels in range', forall([x], Imp(And(0 <= x, x < v.N), Or(v.lab.at(x) == v.na, And(0 <= v.lab.at(x), v.lab.at(x) < v.nc))), [v.lab.at(x)]))
    v.out = c.struct('out_cl_stack', mod=True); v.lg = c.struct('out_size_largest_cluster', mod=True)


def _is_post(c):
    v = c.v; z, x, k = ivars('z', 'x', 'k')

    def ok():
        if not c.producing():
            OB = const('OB', AI); Sp = vc_field(c, v.out, 'pointindex_store')
            c.assume_def(forall([z], OB[z] == v.lab.at(Sp.at(z)), [OB[z]]), 'ghost')
            c.setg('OB', OB)
        C, S, K, P, IDX, OB = new_stack(c, v.out, v.N, v.nc, None)
        c.fact('blocks are the clusters', forall([z], Imp(And(0 <= z, z < P), OB[z] == v.lab.at(S.at(z))), [S.at(z), OB[z]]), C3)
        c.fact('points in the stack', forall([x], Imp(And(0 <= x, x < v.N), (IDX[x] == -1) == (v.lab.at(x) == v.na)), [IDX[x], v.lab.at(x)]), C3)
        c.fact('largest cluster', And(0 <= v.lg(''), v.lg('') <= v.N, forall([k], Imp(And(0 <= k, k < v.nc), K.size(k) <= v.lg('')), [K.size(k)])), C3)
        c.fact('marks', forall([k], Imp(And(0 <= k, k < v.nc), K.mark(k) >= 0), [K.mark(k)]), C3)
    return [('ok', c.ret == EC(c, 'OK'), ok), ('error no memory', And(c.ret == EC(c, 'NO_MEMORY'), oom(c)), None), ('error too many', c.ret == EC(c, 'TOO_LARGE_PROBLEM'), None)]


def vc_field(x, sv, f, st=None):
    """array view through a pointer field"""
    p = sv._rd(st or x.st, f)
    return AV_(x, p, dict(leafs(sv.t))[f].to)


def _lab(L):
    return L.c.v.lab


def _is0(L):
    c = L.c; v = c.v; C = vc_field(L, v.out, 'clusters'); A = v.lab.raw(); i = L.v('i'); SS = L.g('SS'); b, j, k = ivars('b', 'j', 'k'); sz = lambda b: C.at(b, 'size')
    return [('sizes so far', And(SS[0] == 0, 0 <= SS[v.nc], SS[v.nc] <= i, forall([b], Imp(And(0 <= b, b < v.nc), And(SS[b + 1] == SS[b] + sz(b), sz(b) >= 0, sz(b) <= i, sz(b) == CNT(A, i, b))), [sz(b), CNT(A, i, b)]))),
            ('sums ordered', forall([j, k], Imp(And(0 <= j, j <= k, k <= v.nc), SS[j] <= SS[k]), [(SS[j], SS[k])])),
            ('counts not negative', forall([k, b], Imp(And(0 <= k, k <= i, 0 <= b, b < v.nc), And(CNT(A, k, b) >= 0, CNT(A, k, b) <= CNT(A, i, b))), [CNT(A, k, b)]))]


def _is0_g0(L):
    k = z3.Int('k'); SS = const('SS', AI)
    L.assume_def(forall([k], SS[k] == 0, [SS[k]]), 'ghost')
    L.setg('SS', SS)
    count_0(L.st, L.c.v.lab.raw())


def _is0_step(L):
    c = L.c; v = c.v; i = L.p('i'); k = z3.Int('k'); SS = L.g('SS'); S2 = const('SS', AI); l = v.lab.at(i)
    L.assume_def(forall([k], S2[k] == SS[k] + Ite(And(l != v.na, k > l), I(1), I(0)), [S2[k]]), 'ghost')
    L.setg('SS', S2)
    count_step(L.st, v.lab.raw(), i)


def _is1(L):
    c = L.c; v = c.v; C = vc_field(L, v.out, 'clusters'); SS = L.g('SS'); n = L.v('c'); k = z3.Int('k'); mem = lambda k: C.at(k, 'members')
    return [('ends of regions', And(1 <= n, n <= v.nc, forall([k], Imp(And(0 <= k, k < n), And(Not(mem(k).null), mem(k).off == SS[k + 1])), [mem(k).off, mem(k).null]))),
            ('largest so far', And(0 <= L.v('size_largest_cluster'), L.v('size_largest_cluster') <= v.N)), ('none is larger', forall([k], Imp(And(0 <= k, k < n), C.at(k, 'size') <= L.v('size_largest_cluster')), [C.at(k, 'size')])),
            ('positions of clusters', row_facts(lambda k: SS[k], SS[n], L.g('RB'), n))]


def _is1_rb(L, b):
    q = z3.Int('q'); R2 = const('RB', AI); SS, RB = L.g('SS'), L.g('RB')
    L.assume_def(forall([q], R2[q] == Ite(And(SS[b] <= q, q < SS[b + 1]), b, RB[q]), [R2[q]]), 'ghost')
    L.setg('RB', R2)


def _is1_g0(L):
    L.setg('RB', const('RB', AI)); _is1_rb(L, I(0))


def _is2(L):
    c = L.c; v = c.v; C = vc_field(L, v.out, 'clusters'); S = vc_field(L, v.out, 'pointindex_store'); A = v.lab.raw(); i = L.v('i'); SS, RB, IDX = L.g('SS'), L.g('RB'), L.g('IDX'); b, q, x = ivars('b', 'q', 'x')
    mem = lambda k: C.at(k, 'members'); lab = v.lab.at
    return [('next cells', forall([b], Imp(And(0 <= b, b < v.nc), And(Not(mem(b).null), mem(b).off == SS[b + 1] - CNT(A, i, b), SS[b] <= mem(b).off, mem(b).off <= SS[b + 1])), [mem(b).off, mem(b).null])),
            ('filled cells', forall([q], Imp(And(0 <= q, q < SS[v.nc], mem(RB[q]).off <= q), And(0 <= S.at(q), S.at(q) < i, IDX[S.at(q)] == q, lab(S.at(q)) == RB[q])), [S.at(q)])),
            ('placed points', forall([x], Ite(And(0 <= x, x < i, lab(x) != v.na), And(mem(lab(x)).off <= IDX[x], IDX[x] < SS[lab(x) + 1], S.at(IDX[x]) == x), IDX[x] == -1), [IDX[x]]))]


def _is2_g0(L):
    x = z3.Int('x'); J = const('IDX', AI)
    L.assume_def(forall([x], J[x] == -1, [J[x]]), 'ghost')
    L.setg('IDX', J); count_0(L.st, L.c.v.lab.raw())


def _is2_head(L):
    count_step(L.st, L.c.v.lab.raw(), L.v('i'))


def _is2_step(L):
    c = L.c; v = c.v; i = L.p('i'); C = vc_field(L, v.out, 'clusters'); l = v.lab.at(i)
    L.setg('IDX', z3.Store(L.g('IDX'), i, Ite(l != v.na, C.at(l, 'members').off, I(-1))))


reg('iscc_hi_init_cl_stack', _is_pre, _is_post,
    loops={0: LS(_is0, ghosts=('SS',), ghost0=_is0_g0, step=_is0_step), 1: LS(_is1, ghosts=('RB',), ghost0=_is1_g0, step=lambda L: _is1_rb(L, L.p('c'))),
           2: LS(_is2, ghosts=('IDX',), ghost0=_is2_g0, head=_is2_head, step=_is2_step)}, props=('C03', 'C11', 'C12', 'C16'))


# ---------------------------------------------------------------- the entry point
def _hc_pre(c):
    v = c.v; x = z3.Int('x')
    v.cl, v.lab = clustering_arg(c, 'out_clustering', mod=('num_clusters', 'external_labels', 'cluster_label'), mod_labels=True)
    v.p, v.nc = c.opaque('data_set', null='maybe'); v.ds = ds_id(v.p) if not (isinstance(v.p.obj, int) and v.p.obj == 0) else I(0)
    v.N = v.cl('num_data_points'); v.n0 = v.cl('num_clusters'); v.k = c.a('size_constraint'); v.na = NA(c)
    c.fact('labels in range', Or(v.cl.isnull, v.lab.isnull, forall([x], Imp(And(0 <= x, x < v.N, v.n0 > 0), Or(v.lab.at(x) == v.na, And(0 <= v.lab.at(x), v.lab.at(x) < v.n0))), [v.lab.at(x)])))
    c.fact('sizes that fit the address space', And(v.N < (1 << 59), v.n0 < (1 << 57)))


def hc_facts(W, lab, old, N, nl, k, na):
    """clusters of at least k points, or whole old clusters; nobody is left out, and no cluster mixes two old ones"""
    M, IDX, FR, TO, OL, WH = (W[x] for x, _ in RW); l, z, x = ivars('l', 'z', 'x')
    return [('sizes of clusters', forall([l], Imp(And(0 <= l, l < nl), And(0 <= FR[l], FR[l] < TO[l], TO[l] - FR[l] < 2 * k, Or(WH[l], TO[l] - FR[l] >= k))), [FR[l]])),
            ('members of clusters', forall([l, z], Imp(And(0 <= l, l < nl, FR[l] <= z, z < TO[l]), And(0 <= M[z], M[z] < N, lab(M[z]) == l, IDX[M[z]] == z)), [(FR[l], M[z])])),
            ('every clustered point has a cluster', forall([x], Imp(And(0 <= x, x < N), Ite(old(x) == na, lab(x) == na, And(0 <= lab(x), lab(x) < nl, FR[lab(x)] <= IDX[x], IDX[x] < TO[lab(x)], M[IDX[x]] == x))), [lab(x)])),
            ('old clusters are refined', forall([x], Imp(And(0 <= x, x < N, old(x) != na), OL[lab(x)] == old(x)), [lab(x)])),
            ('clusters that were not split', forall([x, l], Imp(And(0 <= x, x < N, 0 <= l, l < nl, WH[l], old(x) == OL[l], old(x) != na), lab(x) == l), [(OL[l], lab(x))]))]


def _hc_post(c):
    v = c.v
    rules = [('INVALID_INPUT', Not(cl_valid(c, v.cl, v.lab))), ('INVALID_INPUT', Or(v.nc, Not(DSOK(v.ds)))), ('INVALID_INPUT', And(cl_valid(c, v.cl, v.lab), NPTS(v.ds) != v.N)), ('INVALID_INPUT', v.k < 2), ('NO_SOLUTION', v.N < v.k)]
    bad = lambda code=None: Or(*[f for k, f in rules if code in (None, k)])
    old = lambda x: Ite(v.n0 == 0, I(0), v.lab.o(x))

    def ok():
        if not c.producing():
            _hc_final(c, old)
        W = {n: ghost(c, n, s) for n, s in RW}; nl = v.cl('num_clusters'); lab = v.lab2.at; x = z3.Int('x')
        c.fact('number of clusters', And(nl >= 0, nl <= c.const('SCC_CLABEL_MAX')), C3)
        for nm, f in hc_facts(W, lab, old, v.N, nl, v.k, v.na):
            c.fact(nm, f, C3)

    def err():
        c.fact('number of clusters as it was', v.cl('num_clusters') == v.cl.o('num_clusters'), C3 + ('C10', 'C11'))
        if v.lab2 is v.lab:
            c.fact('labels as they were', Or(v.lab.isnull, unchanged(c, v.lab)), C3 + ('C10', 'C11'))

    def same():
        if not is_true(v.cl.isnull):
            c.fact('clustering untouched', Or(v.cl.isnull, And(*[v.cl(f) == v.cl.o(f) for f in ('num_clusters', 'external_labels')])), C3 + ('C10', 'C11', 'C12'))
            c.fact('labels untouched', Or(v.cl.isnull, v.lab.isnull, unchanged(c, v.lab)), C3 + ('C10', 'C11'))
        c.same(v.cl.loc('cluster_label'))
    r = []
    for code in ('INVALID_INPUT', 'NO_SOLUTION'):
        r.append(('rejected: ' + code, (lambda code=code: And(c.ret == EC(c, code), bad())), lambda code=code: (same(), c.fact('a rule with the returned code is violated', bad(code), ('C10',)))))
    for nm, code, g, body in (('ok', 'OK', T, ok), ('error no memory', 'NO_MEMORY', oom(c), err), ('error search', 'DIST_SEARCH_ERROR', T, err), ('error too many', 'TOO_LARGE_PROBLEM', T, err)):
        for ln, lg, lb in label_cases(c):
            r.append(('%s, %s' % (nm, ln), (lambda code=code, g=g, lg=lg: And(c.ret == EC(c, code), g, lg(), Not(bad()))), (lambda lb=lb, body=body: (lb(), body()))))
    return r


def _hc_stack(c, o):
    if o == 'ok':
        c.setg('LARGEST', c.local('size_largest_cluster', c.st))


def _hc_run(c, o):
    """the final order of the points"""
    if o == 'ok':
        C = c.call('iscc_hi_run_hierarchical_clustering')
        c.st.ghosts = dict(c.st.ghosts); c.st.ghosts['M'] = C.v.s.S.raw(c.st); c.adopt('iscc_hi_run_hierarchical_clustering', [n for n, _ in RW if n != 'M'])


def _hc_final(c, old):
    v = c.v; C = c.call('iscc_hi_run_hierarchical_clustering'); G = c.st.ghosts; x = z3.Int('x')
    IDX0, OB, S0 = C.v.IDX0, C.v.OB, C.v.s.S.o
    c.by('origin of a point', forall([x], Imp(And(0 <= x, x < v.N), Ite(old(x) == v.na, IDX0[x] == -1, And(IDX0[x] != -1, OB[IDX0[x]] == old(x)))), [IDX0[x]]), None, C3)
    IDX = c.st.ghosts['IDX']; M = c.st.ghosts['M']; P = C.v.P; K0 = SK(C.v.s.C, C.old); l = z3.Int('l'); WH, OL = c.st.ghosts['WH'], c.st.ghosts['OL']; o = OB[IDX[x]]; rp = 'iscc_hi_run_hierarchical_clustering: '
    c.by('place of a point', forall([x], Imp(And(0 <= x, x < v.N, old(x) != v.na), And(0 <= IDX[x], IDX[x] < P, M[IDX[x]] == x, o == old(x), K0.off(o) <= IDX[x], IDX[x] < K0.end(o))), [IDX[x]]), None, C3, only=('origin of a point', rp + 'points stay in their block', rp + 'places of points', 'call of ' + rp[:-2] + ' requires block of a position', 'iscc_hi_init_cl_stack: block of a position', 'iscc_hi_empty_cl_stack: block of a position'))


r = reg('scc_hierarchical_clustering', _hc_pre, _hc_post, props=('C03', 'C10', 'C11', 'C12', 'C16'))
r.after = {'iscc_hi_empty_cl_stack': _hc_stack, 'iscc_hi_init_cl_stack': _hc_stack, 'iscc_hi_run_hierarchical_clustering': _hc_run}
