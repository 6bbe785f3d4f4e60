"""nng_findseeds.c (C06): the exclusion graph, and the seed search that uses it.

A vertex u with neighbours excludes x when x != u and u points to x, x points to u, or both point to a common vertex: the
closed neighbourhoods of u and x meet.  Row u of the exclusion graph lists the vertices that u excludes, each once.
"""
from .base import *
from .dgops import AI, AAI, vc_arr, row_facts
from .product import row_facts_, path_fact, product_facts, GH
from .union import tails_arg, union_facts
from .findseeds import *
from .findseeds import _fs_pre, _fs_post
C6 = ('C06',)
XW = (('RO', AI), ('LOC', AAI), ('W1', AI), ('W2', AI))


def in_row(et, eh, LOC, u, x):
    return And(et(u) <= LOC[u][x], LOC[u][x] < et(u + 1), eh(LOC[u][x]) == x)


def reason(t, h, u, x, a, b):
    """why u excludes x: an arc to x, an arc from x, or arcs to a common vertex"""
    ra, rb = And(t(u) <= a, a < t(u + 1)), And(t(x) <= b, b < t(x + 1))
    return Or(And(ra, h(a) == x), And(rb, h(b) == u), And(ra, rb, h(a) == h(b)))


def excl_facts(n, t, h, kept, et, eh, RO, LOC, W1, W2):
    u, x, q, p, b = ivars('u', 'x', 'q', 'p', 'b'); y = RO[q]
    IN = lambda u, x: in_row(et, eh, LOC, u, x)
    row = lambda v, p: And(0 <= v, v < n, t(v) <= p, p < t(v + 1))
    return [('every exclusion has its row', row_facts_(et, et(n), RO, n)),
            ('no exclusion twice', forall([q], Imp(And(0 <= q, q < et(n)), LOC[y][eh(q)] == q), [eh(q)])),
            ('exclusions of others', forall([q], Imp(And(0 <= q, q < et(n)), And(kept(y), eh(q) != y)), [eh(q)])),
            ('exclusions have a reason', forall([q], Imp(And(0 <= q, q < et(n)), reason(t, h, y, eh(q), W1[q], W2[q])), [eh(q)])),
            ('neighbours are excluded', forall([u, p], Imp(And(row(u, p), kept(u), h(p) != u), IN(u, h(p))), [(LOC[u], h(p))])),
            ('vertices pointing here are excluded', forall([x, p], Imp(And(row(x, p), kept(h(p)), h(p) != x), IN(h(p), x)), [LOC[h(p)][x]])),
            ('vertices with a common neighbour are excluded', forall([u, x, p, b], Imp(And(row(u, p), row(x, b), h(p) == h(b), kept(u), x != u), IN(u, x)), [(LOC[u][x], h(p), h(b))]))]


def _eg_pre(c):
    v = c.v
    v.sv, v.t, v.h = dg_in(c, 'nng', heap=False); v.n = v.sv('vertices')
    c.fact('has vertices and arcs', And(v.n > 0, v.t.at(v.n) > 0))
    tails_arg(c, v.n, 'not_excluded', 'len_not_excluded')
    v.out = c.struct('out_dg', mod=True)


def _take(c, f, names):
    """keep the graph a call returned"""
    C = c.call(f)
    c.st.ghosts = dict(c.st.ghosts)
    for k, g in zip(('tail_ptr', 'head'), names):
        p = C.v.out._rd(C.st, k)
        c.st.ghosts[g] = C.st.heap[p.obj].c['']


def _eg_tr(c, o):
    if o == 'ok':
        _take(c, 'iscc_digraph_transpose', ('TT', 'TH'))


def _eg_pr(c, o):
    if o == 'ok':
        _take(c, 'iscc_adjacency_product', ('PT', 'PH'))


def _eg_steps(c, et, eh, kept):
    v = c.v; t, h, n = v.t.at, v.h.at, v.n; G = c.st.ghosts
    TT, TH, PT, PH = [(lambda k, a=G[g]: a[k]) for g in ('TT', 'TH', 'PT', 'PH')]
    tr, pr, un = 'iscc_digraph_transpose', 'iscc_adjacency_product', 'iscc_digraph_union_and_delete'
    INV, POS, RT = [G['%s.%s' % (tr, g)] if '%s.%s' % (tr, g) in G else G[g] for g in ('INV', 'POS', 'RO')]
    return TT, TH, PT, PH, INV, POS, RT


def _eg_post(c):
    v = c.v; t, h, n, out = v.t.at, v.h.at, v.n, v.out
    kept = (lambda u: T) if v.tn else None
    m = c.witness('arcs', IS, lambda: out('max_arcs'))

    def ok():
        c.fact('sizes', And(out('vertices') == n, out('max_arcs') == m), C6)
        et = c.fresh(out.loc('tail_ptr'), n + 1)
        eh = c.fresh(out.loc('head'), m, null=(m == 0))
        for nm, f in valid_facts(n, m, et.at, eh.at):
            c.fact('result: ' + nm, f, C6)
        c.fact('storage fits exactly', et.at(n) == m, C6)
        k = (lambda u: T)
        if not v.tn:
            if c.producing():
                KP = c.witness('KP', z3.ArraySort(IS, BS)); KI = c.witness('KI', AI)
            else:
                U_ = c.call('iscc_digraph_union_and_delete').v; KP, KI = U_.KP, U_.KI
            x, j = ivars('x', 'j'); k = lambda u: KP[u]
            c.fact('kept rows', forall([j], Imp(And(0 <= j, j < v.ln), KP[v.tails.at(j)]), [v.tails.at(j)]), C6)
            c.fact('place of kept rows', forall([x], Imp(KP[x], And(0 <= KI[x], KI[x] < v.ln, v.tails.at(KI[x]) == x)), [KP[x]]), C6)
            v.KP, v.KI = KP, KI
        v.kept = k
        if not c.producing():
            _eg_proof(c, et.at, eh.at, k)
        W = [c.witness(g, s) for g, s in XW]
        v.W = dict(zip([g for g, _ in XW], W)); v.et, v.eh = et, eh
        for nm, f in excl_facts(n, t, h, k, et.at, eh.at, *W):
            if c.producing():
                c.fact(nm, f, C6)
            else:
                c.by(nm, f, None, C6, only=_EG_ONLY[nm])
    return [('ok', And(c.ret == EC(c, 'OK'), m <= c.const('ISCC_ARCINDEX_MAX')), ok),
            ('error no memory', And(c.ret == EC(c, 'NO_MEMORY'), oom(c)), None),
            ('error too large', c.ret == EC(c, 'TOO_LARGE_PROBLEM'), None)]


_tr, _pr, _un = 'iscc_digraph_transpose: ', 'iscc_adjacency_product: ', 'iscc_digraph_union_and_delete: '
_EG_ONLY = {'every exclusion has its row': [_un + 'every arc has its row'],
            'no exclusion twice': [_un + 'no arc twice'],
            'exclusions of others': [_un + 'every arc comes from a graph'],
            'exclusions have a reason': ['reasons'],
            'neighbours are excluded': [_un + 'arcs are found'],
            'vertices pointing here are excluded': ['reversed arcs', 'arcs of the product are excluded', 'neighbours are vertices', _pr + 'own arcs are found'],
            'vertices with a common neighbour are excluded': ['reversed arcs', 'arcs of the product are excluded', _pr + 'paths are found']}


def _eg_proof(c, et, eh, kept):
    v = c.v; t, h, n = v.t.at, v.h.at, v.n; G = c.st.ghosts; c.st.ghosts = G = dict(G)
    TT, TH, PT, PH = [(lambda k, a=G[g]: a[I(k)]) for g in ('TT', 'TH', 'PT', 'PH')]
    INV, POS, RT = [G[_tr[:-2] + '.' + g] for g in ('INV', 'POS', 'RO')]
    RP, SET, LP, PA, PB = [G[_pr[:-2] + '.' + g] for g, _ in GH]
    RU, FI, FP, LU = [G[_un[:-2] + '.' + g] for g in ('RO', 'FI', 'FP', 'LOC')]
    q, u, x, b, p = ivars('q', 'u', 'x', 'b', 'p')
    W1, W2 = const('W1', AI), const('W2', AI); y = RU[q]; f = FP[y][eh(q)]
    c.assume_def(forall([q], W1[q] == Ite(FI[y][eh(q)] == 0, f, PA[f]), [W1[q]]), 'ghost')
    c.assume_def(forall([q], W2[q] == INV[PB[f]], [W2[q]]), 'ghost')
    G['RO'], G['LOC'], G['W1'], G['W2'] = RU, LU, W1, W2
    rows = ['rows are ordered']
    c.by('neighbours are vertices', forall([x, b], Imp(And(0 <= x, x < n, t(x) <= b, b < t(x + 1)), And(0 <= h(b), h(b) < n)), [(t(x), h(b))]), None, C6, only=rows + ['heads are vertices', 'nng: first row starts at 0'])
    c.by('reversed arcs', forall([x, b], Imp(And(0 <= x, x < n, t(x) <= b, b < t(x + 1)), And(TH(POS[b]) == x, TT(h(b)) <= POS[b], POS[b] < TT(h(b) + 1))), [(t(x), h(b))]), None, C6,
         only=rows + [_tr + 'every arc is reversed', _tr + 'every arc is the reverse of an arc', 'heads are vertices'])
    c.by('arcs of the transpose', forall([u, p], Imp(And(0 <= u, u < n, TT(u) <= p, p < TT(u + 1)), And(t(TH(p)) <= INV[p], INV[p] < t(TH(p) + 1), h(INV[p]) == u)), [(TT(u), TH(p))]), None, C6,
         only=rows + [_tr + 'every arc is the reverse of an arc', _tr + 'every position has its row'])
    c.by('arcs of the product are excluded', forall([u, x], Imp(And(0 <= u, u < n, kept(u), SET[u][x], x != u), in_row(et, eh, LU, u, x)), [SET[u][x], LU[u][x]]), None, C6,
         only=rows + [_pr + 'found vertices have arcs', _un + 'arcs are found'])
    c.by('row of an arc of the product', forall([u, p], Imp(And(0 <= u, u < n, PT(u) <= p, p < PT(u + 1)), RP[p] == u), [(PT(u), RP[p])]), None, C6, only=rows + [_pr + 'every arc has its row'])
    a, d = PA[p], PB[p]
    c.by('paths of the product', forall([u, p], Imp(And(0 <= u, u < n, PT(u) <= p, p < PT(u + 1)), path_fact(t, h, TT, TH, T, u, PH(p), a, d)), [(PT(u), PH(p))]), None, C6, only=rows + [_pr + 'every arc is a path', 'row of an arc of the product'])
    r = reason(t, h, u, PH(p), a, INV[d])
    c.by('reasons of the product', forall([u, p], Imp(And(0 <= u, u < n, PT(u) <= p, p < PT(u + 1)), r), [(PT(u), PH(p))]), None, C6, only=['paths of the product', 'arcs of the transpose', 'neighbours are vertices'])
    c.by('reasons', forall([q], Imp(And(0 <= q, q < et(n)), reason(t, h, y, eh(q), W1[q], W2[q])), [eh(q)]), None, C6, only=[_un + 'every arc comes from a graph', _un + 'every arc has its row', 'reasons of the product', 'ghost'])


r = reg('iscc_fs_exclusion_graph', _eg_pre, _eg_post, props=('C06', 'C11', 'C12', 'C16'))
r.variants = [{'tn': True}, {'tn': False}]
r.after = {'iscc_digraph_transpose': _eg_tr, 'iscc_adjacency_product': _eg_pr}


# ---------------------------------------------------------------- seeds that are not excluded yet
def _xe_pre(c):
    _fs_pre(c)
    if c.mode == 'verify':
        c.fact('case', c.a('updating') == B(c.variant['upd']))
        c.v.upd = c.variant['upd']


def _some(t, v):
    return t(v) != t(v + 1)


def _x0(L):
    """rows with arcs are listed"""
    c = L.c; t = c.v.t.at; v = L.v('v'); num = L.v('tmp_num_not_excluded'); NE = L.arr('not_excluded').at; tl = L.arr('tmp_index_not_excluded').at; PI = L.g('PI'); y, i, j = ivars('y', 'i', 'j')
    return [('number listed', And(0 <= num, num <= v, v <= c.v.sv('vertices'))),
            ('vertices with arcs', forall([y], Imp(And(0 <= y, y < v), NE(y) == _some(t, y)), [NE(y)])),
            ('listed vertices', forall([j], Imp(And(0 <= j, j < num), And(0 <= tl(j), tl(j) < v, _some(t, tl(j)))), [tl(j)])),
            ('list is ordered', forall([i, j], Imp(And(0 <= i, i < j, j < num), tl(i) < tl(j)), [(tl(i), tl(j))])),
            ('vertices with arcs are listed', forall([y], Imp(And(0 <= y, y < v, _some(t, y)), And(0 <= PI[y], PI[y] < num, tl(PI[y]) == y)), [PI[y]])),
            ('all listed', Imp(num == v, forall([y], Imp(And(0 <= y, y < v), _some(t, y)), [t(y)])))]


def _x0_step(L):
    L.setg('PI', z3.Store(L.g('PI'), L.p('v'), L.p('tmp_num_not_excluded')))


def _xg(L):
    G = L.st.ghosts
    return (lambda k: G['ET'][I(k)]), (lambda k: G['EH0'][I(k)]), G['RO'], G['LOC'], G['W2'], G['NB']


def _x_graph(c, o):
    """what the exclusion graph says, in terms of the rows with arcs"""
    if o != 'ok':
        return
    C = c.call('iscc_fs_exclusion_graph'); v = c.v; n = v.sv('vertices'); t, h = v.t.at, v.h.at; st = c.st
    st.ghosts = G = dict(st.ghosts); k = C.v.kept; f = 'iscc_fs_exclusion_graph: '
    for g, a in (('ET', C.v.et), ('EH0', C.v.eh)):
        G[g] = st.heap[a.p.obj].c['']
    for g, _ in XW:
        G[g] = G['iscc_fs_exclusion_graph.' + g]
    G['NB'] = NB = const('NB', AAI)
    et, eh, RO, LOC, W2, _ = _xg(c); u, x, p, q, b = ivars('u', 'x', 'p', 'q', 'b'); rng = lambda y: And(0 <= y, y < n)
    row = lambda v, p: And(rng(v), t(v) <= p, p < t(v + 1))
    c.assume_def(forall([u, x], Or(NB[u][x] == -1, And(t(u) <= NB[u][x], NB[u][x] < t(u + 1), h(NB[u][x]) == x)), [NB[u][x]]), 'definition: arc to a neighbour')
    c.assume_def(forall([u, p], Imp(And(t(u) <= p, p < t(u + 1)), NB[u][h(p)] != -1), [(NB[u], h(p))]), 'definition: neighbours have arcs')
    PI = G['PI']
    if C.v.tn:
        c.by('kept rows are those with arcs', forall([u], Imp(rng(u), _some(t, u)), [t(u), LOC[u]]), None, C6, only=['all listed'])
    else:
        c.by('place of rows with arcs', forall([u], Imp(And(rng(u), _some(t, u)), And(C.v.tails.at(PI[u]) == u, 0 <= PI[u], PI[u] < C.v.ln)), [C.v.KP[u]]), None, C6, only=['vertices with arcs are listed'])
        c.by('kept rows are those with arcs', forall([u], Imp(rng(u), C.v.KP[u] == _some(t, u)), [C.v.KP[u]]), None, C6, only=['listed vertices', 'place of rows with arcs', f + 'kept rows', f + 'place of kept rows'])
    kr = 'kept rows are those with arcs'
    c.by('neighbours are vertices', forall([u, p], Imp(And(rng(u), t(u) <= p, p < t(u + 1)), rng(h(p))), [(t(u), h(p))]), None, C6, only=['nng: rows are ordered', 'nng: heads are vertices', 'nng: first row starts at 0'])
    c.by('row of an exclusion', forall([u, q], Imp(And(rng(u), et(u) <= q, q < et(u + 1)), RO[q] == u), [(et(u), RO[q])]), None, C6, only=['rows are ordered', f + 'every exclusion has its row'])
    c.by('place of an exclusion', forall([u, q], Imp(And(rng(u), et(u) <= q, q < et(u + 1)), And(LOC[u][eh(q)] == q, eh(q) != u, 0 <= eh(q), eh(q) < n, q < et(n))), [(et(u), eh(q)), (LOC[u], eh(q))]), None, C6,
         only=['rows are ordered', 'row of an exclusion', f + 'no exclusion twice', f + 'exclusions of others', f + 'every exclusion has its row', f + 'result: heads are vertices'])
    IN = lambda u, x: in_row(et, eh, LOC, u, x); w = W2[LOC[u][x]]
    c.by('an excluded vertex is near', forall([u, x], Imp(And(rng(u), rng(x), IN(u, x)), Or(NB[u][x] != -1, And(t(x) <= w, w < t(x + 1), Or(h(w) == u, NB[u][h(w)] != -1)))), [LOC[u][x]]), None, C6,
         only=['rows are ordered', 'row of an exclusion', f + 'exclusions have a reason', f + 'every exclusion has its row', 'definition: neighbours have arcs'])
    c.by('neighbours exclude', forall([u, p], Imp(And(row(u, p), h(p) != u), IN(u, h(p))), [(LOC[u], h(p))]), None, C6, only=[f + 'neighbours are excluded', kr])
    c.by('vertices pointing here exclude', forall([x, p], Imp(And(row(x, p), rng(h(p)), _some(t, h(p)), h(p) != x), IN(h(p), x)), [LOC[h(p)][x]]), None, C6, only=[f + 'vertices pointing here are excluded', kr])
    c.by('common neighbours exclude', forall([u, x, p, b], Imp(And(row(u, p), row(x, b), h(p) == h(b), x != u), IN(u, x)), [(LOC[u][x], h(p), h(b))]), None, C6, only=[f + 'vertices with a common neighbour are excluded', kr])
    c.forget(*[f + nm for nm in ('no exclusion twice', 'exclusions of others', 'exclusions have a reason', 'neighbours are excluded', 'vertices pointing here are excluded', 'vertices with a common neighbour are excluded')])


def _seeds(L):
    c = L.c; n = c.v.sv('vertices'); sd, cnt, cap = sview(L)
    return [('seed list', And(cnt >= 0, cnt <= cap, cap >= 1, cap <= (1 << 60), cnt <= c.const('SCC_CLABEL_MAX'), eq(L.eng.obj_len(L.st, sd.p), cap)))] + \
        seed_facts(n, c.v.t.at, c.v.h.at, sd.at, cnt, L.g('OWN'), L.g('OWP'))


def _ehv(L):
    return L.arr('exclusion_graph', 'head')


def _x1(L):
    c = L.c; n = c.v.sv('vertices'); t, h = c.v.t.at, c.v.h.at; et, eh0, RO, LOC, W2, NB = _xg(L); q, x, s, p = ivars('q', 'x', 's', 'p')
    cur = L.off('sorted_v'); S = L.arr('sort', 'sorted_vertices').at; NE = L.arr('not_excluded').at; OWN, BLK = L.g('OWN'), L.g('BLK'); sd, cnt, cap = sview(L)
    r = [('position', And(0 <= cur, cur <= n))] + _seeds(L) + [
        ('vertices left have arcs', forall([x], Imp(And(0 <= x, x < n, NE(x)), _some(t, x)), [NE(x)])),
        ('excluded vertices cannot be added', forall([x], Imp(And(0 <= x, x < n, Not(NE(x))), maximal(x, t, h, OWN, BLK)), [NE(x)])),
        ('passed vertices are excluded', forall([q], Imp(And(0 <= q, q < cur), Not(NE(S(q)))), [S(q)])),
        ('seeds are excluded', forall([s], Imp(And(0 <= s, s < cnt), Not(NE(sd.at(s)))), [sd.at(s)])),
        ('exclusions of seeds are excluded', forall([s, x], Imp(And(0 <= s, s < cnt, 0 <= x, x < n, in_row(et, eh0, LOC, sd.at(s), x)), Not(NE(x))), [LOC[sd.at(s)][x]]))]
    EH = _ehv(L).at
    r += [('rows of vertices left are kept', forall([q], Imp(And(0 <= q, q < et(n), NE(RO[q])), EH(q) == eh0(q)), [EH(q)]))]
    if c.v.upd:
        D = L.g('D')
        r += sort_inv(L, cur, L.g('EH0'), et(n))
        r += [('retired arcs start at excluded vertices', forall([p], Imp(And(0 <= p, p < et(n), D[p]), Not(NE(RO[p]))), [D[p]]))]
    return r


def _x1_g0(L):
    seed_g0(L)
    if L.c.v.upd:
        none_retired(L, L.g('EH0'), _xg(L)[0](L.c.v.sv('vertices')))


def _x1_head(L):
    """no seed is near a vertex that is not excluded"""
    c = L.c; n = c.v.sv('vertices'); t, h = c.v.t.at, c.v.h.at; et, eh0, RO, LOC, W2, NB = _xg(L); x = z3.Int('x')
    cur = L.off('sorted_v'); s = L.arr('sort', 'sorted_vertices').at(cur); NE = L.arr('not_excluded').at; OWN = L.g('OWN'); sd, cnt, cap = sview(L)
    near = Or(x == s, NB[s][x] != -1); y = sd.at(OWN[x])
    L.by('next vertex', Imp(cur < n, And(0 <= s, s < n)), None, C6, only=['every position holds a vertex'])
    L.by('next vertex has arcs', Imp(And(cur < n, NE(s)), t(s) < t(s + 1)), None, C6, only=['vertices left have arcs', 'nng: rows are ordered'])
    OWP = L.g('OWP')
    for nm, g in (('itself', OWP[x] == -1), ('its neighbours', OWP[x] != -1)):
        L.by('seeds near exclude: ' + nm, forall([x], Imp(And(cur < n, 0 <= x, x < n, near, OWN[x] != -1, g), Or(y == s, in_row(et, eh0, LOC, y, s))), [OWN[x], NB[s][x]]), None, C6,
             only=['neighbours exclude', 'vertices pointing here exclude', 'common neighbours exclude', 'seeds are vertices with neighbours', 'owners are seeds', 'owned vertices are the seed itself', 'or in its neighbourhood', 'definition: arc to a neighbour'])
    L.by('no seed is near', forall([x], Imp(And(cur < n, NE(s), 0 <= x, x < n, near), OWN[x] == -1), [OWN[x], NB[s][x]]), None, C6,
         only=['seeds near exclude: itself', 'seeds near exclude: its neighbours', 'owners are seeds', 'seeds are excluded', 'exclusions of seeds are excluded', 'seeds are vertices with neighbours'])


def _x1_step(L):
    c = L.c; k = z3.Int('k'); sd, cnt, cap = sview(L); pcnt = c.v.out._rd(L.prev, 'count')
    if L.eng.quick(L.st, cnt == pcnt):
        return
    et, eh0, RO, LOC, W2, NB = _xg(L); s = L.arr('sort', 'sorted_vertices').prev(L.p('sorted_v').off); NEp = L.arr('not_excluded').prev
    OWN, OWP, BLK = L.g('OWN'), L.g('OWP'), L.g('BLK'); O2, P2, B2 = const('OWN', AI), const('OWP', AI), const('BLK', AI)
    L.assume_def(forall([k], O2[k] == Ite(Or(k == s, NB[s][k] != -1), pcnt, OWN[k]), [O2[k]]), 'ghost')
    L.assume_def(forall([k], P2[k] == Ite(k == s, I(-1), Ite(NB[s][k] != -1, NB[s][k], OWP[k])), [P2[k]]), 'ghost')
    L.assume_def(forall([k], B2[k] == Ite(NEp(k), W2[LOC[s][k]], BLK[k]), [B2[k]]), 'ghost')
    L.setg('OWN', O2); L.setg('OWP', P2); L.setg('BLK', B2)
    sdp = AV_(L, c.v.out._rd(L.prev, 'seeds'), sd.elem); NE = L.arr('not_excluded').at; n = c.v.sv('vertices'); j, x = ivars('j', 'x'); t, h = c.v.t.at, c.v.h.at
    L.by('seeds so far', forall([j], Imp(And(0 <= j, j < cnt), sd.at(j) == Ite(j == pcnt, s, sdp.rd(L.prev, j))), [sd.at(j)]), None, C6, only=['seed appended', 'iscc_fs_add_seed: seed appended', 'arcs kept', 'realloc', 'frame'])
    L.by('newly excluded vertices', forall([x], Imp(And(0 <= x, x < n), And(Imp(NE(x), And(NEp(x), x != s, Not(in_row(et, eh0, LOC, s, x)))), Imp(And(Not(NE(x)), NEp(x)), Or(x == s, in_row(et, eh0, LOC, s, x))))), [NE(x)]), None, C6, only=['excluded so far', 'frame'])
    new = dict(seed_facts(n, t, h, sd.at, cnt, O2, P2))
    st = ['seeds so far', 'newly excluded vertices', 'ghost', 'no seed is near', 'owners are seeds']
    ar = 'seeds are vertices with neighbours'
    L.by(ar, new[ar], None, C6, only=st + ['loop1/' + ar, ar])
    z = z3.Int('s')
    L.by('seeds are excluded', forall([z], Imp(And(0 <= z, z < cnt), Not(NE(sd.at(z)))), [sd.at(z)]), None, C6, only=st + ['seeds are excluded', ar])
    nm = 'exclusions of seeds are excluded'
    L.by(nm, forall([z, x], Imp(And(0 <= z, z < cnt, 0 <= x, x < n, in_row(et, eh0, LOC, sd.at(z), x)), Not(NE(x))), [LOC[sd.at(z)][x]]), None, C6, only=st + [nm])
    nm = 'neighbourhoods of seeds are disjoint'
    p = z3.Int('p'); so = sdp.rd(L.prev, z)
    L.by('neighbours of the new seed', forall([p], Imp(And(t(s) <= p, p < t(s + 1)), O2[h(p)] == pcnt), [h(p)]), None, C6, only=['ghost', 'definition: neighbours have arcs'])
    L.by('neighbours of earlier seeds', forall([z, p], Imp(And(0 <= z, z < pcnt, t(so) <= p, p < t(so + 1)), O2[h(p)] == z), [(so, h(p))]), None, C6,
         only=['ghost', 'no seed is near', 'loop1/' + nm, 'neighbours are vertices', 'loop1/seeds are vertices with neighbours', nm])
    L.by(nm, new[nm], None, C6, only=['seeds so far', 'neighbours of the new seed', 'neighbours of earlier seeds'])


def _x1_exit(L):
    c = L.c; v = z3.Int('v'); n = c.v.sv('vertices'); S = L.arr('sort', 'sorted_vertices').at; NE = L.arr('not_excluded').at
    VI = (lambda k: L.arr('sort', 'vertex_index').at(k).off) if c.v.upd else (lambda k: L.g('iscc_fs_sort_by_inwards.VIX')[k])
    done = L.off('sorted_v') == n
    L.by('all vertices considered', forall([v], Imp(And(0 <= v, v < n, done), And(S(VI(v)) == v, Not(NE(S(VI(v)))))), [NE(v), c.v.t.at(v)]), None, C6, only=['every vertex has a position', 'passed vertices are excluded'])


def _here(L):
    cur = L.off('sorted_v'); return cur, L.arr('sort', 'sorted_vertices').at(cur)


def _marked(L, s, pos):
    et, eh0, RO, LOC, W2, NB = _xg(L); NE = L.arr('not_excluded'); x = z3.Int('x'); n = L.c.v.sv('vertices')
    return [('excluded so far', forall([x], Imp(And(0 <= x, x < n), NE.at(x) == And(NE.ent(x), Not(And(et(s) <= LOC[s][x], LOC[s][x] < pos, eh0(LOC[s][x]) == x)))), [NE.at(x)]))]


def _x2(L):
    et, eh0, RO, LOC, W2, NB = _xg(L); cur, s = _here(L); pos = L.off('ex_arc')
    return [('position in the row', And(et(s) <= pos, pos <= et(s + 1)))] + _marked(L, s, pos)


def _row_head(L):
    """arcs of the row are as in the exclusion graph"""
    et, eh0, RO, LOC, W2, NB = _xg(L); cur, s = _here(L); pos = L.off('ex_arc'); n = L.c.v.sv('vertices'); EH = _ehv(L).at; more = pos < et(s + 1); x = eh0(pos)
    L.by('row within the graph', And(0 <= et(s), et(s) <= et(s + 1), et(s + 1) <= et(n)), None, C6, only=['rows are ordered', 'result: first row starts at 0'])
    L.by('arc of the row', Imp(more, And(RO[pos] == s, LOC[s][x] == pos, x != s, 0 <= x, x < n)), None, C6, only=['row of an exclusion', 'place of an exclusion'])
    L.by('arc as it was', Imp(more, EH(pos) == x), None, C6, only=['rows of vertices left are kept', 'arcs to come are kept'])


def _x3(L):
    et, eh0, RO, LOC, W2, NB = _xg(L); cur, s = _here(L); pos, w = L.off('ex_arc'), L.off('write_arc'); EH = _ehv(L); SP = L.g('SP'); k, q = ivars('k', 'q'); n = L.c.v.sv('vertices'); e = EH.at(k); NE = L.arr('not_excluded')
    return [('position in the row', And(et(s) <= pos, pos <= et(s + 1), et(s) <= w, w <= pos))] + _marked(L, s, pos) + [
        ('newly excluded', forall([k], Imp(And(et(s) <= k, k < w), And(0 <= e, e < n, NE.ent(e), et(s) <= LOC[s][e], LOC[s][e] < pos, eh0(LOC[s][e]) == e, SP[e] == k)), [e])),
        ('arcs to come are kept', forall([q], Imp(Or(q < et(s), w <= q), EH.at(q) == EH.ent(q)), [EH.at(q)]))]


def _x3_step(L):
    wp, w = L.p('write_arc').off, L.off('write_arc'); SP = L.g('SP'); x = _xg(L)[1](L.p('ex_arc').off)
    L.setg('SP', z3.Store(SP, x, Ite(w == wp, SP[x], wp)))


def _passed(L, cur):
    S = L.arr('sort', 'sorted_vertices').at; NE = L.arr('not_excluded').at; q = z3.Int('q')
    return [('vertices up to here are excluded', forall([q], Imp(And(0 <= q, q <= cur), Not(NE(S(q)))), [S(q)]))]


def _x4(L):
    et, eh0, RO, LOC, W2, NB = _xg(L); n = L.c.v.sv('vertices'); cur, s = _here(L); j, w = L.off('ex_arc'), L.off('write_arc'); EH = _ehv(L).at; SP = L.g('SP'); p = z3.Int('p'); D, D0 = L.g('D'), L.entry.ghosts['D']
    return [('position in the list', And(et(s) <= j, j <= w))] + sort_inv(L, cur + 1, L.g('EH0'), et(n)) + kept_since(L, cur) + _passed(L, cur) + [
        ('newly retired arcs start at listed vertices', forall([p], Imp(And(0 <= p, p < et(n), D[p]), Or(D0[p], And(et(s) <= SP[RO[p]], SP[RO[p]] < j, EH(SP[RO[p]]) == RO[p]))), [D[p]]))]


def _x4_head(L):
    """the row of a listed vertex is as it was, and none of its arcs retired"""
    et, eh0, RO, LOC, W2, NB = _xg(L); n = L.c.v.sv('vertices'); cur, s = _here(L); j, w = L.off('ex_arc'), L.off('write_arc'); EH = _ehv(L).at; SP = L.g('SP'); q = z3.Int('q'); D = L.g('D'); x = EH(j)
    L.by('the seed is the same', s == L.arr('sort', 'sorted_vertices').ent(cur), None, C6, only=['passed positions kept'])
    more = j < w; row = And(more, et(x) <= q, q < et(x + 1))
    L.by('a listed vertex', Imp(more, And(0 <= x, x < n, x != s, SP[x] == j)), None, C6, only=['newly excluded', 'place of an exclusion'])
    L.by('row of the listed vertex', Imp(more, And(0 <= et(x), et(x) <= et(x + 1), et(x + 1) <= et(n))), None, C6, only=['rows are ordered', 'result: first row starts at 0'])
    L.by('its row is as it was', forall([q], Imp(row, And(RO[q] == x, EH(q) == eh0(q), 0 <= eh0(q), eh0(q) < n)), [EH(q)]), None, C6,
         only=['row of an exclusion', 'place of an exclusion', 'rows of vertices left are kept', 'arcs to come are kept', 'newly excluded', 'rows are ordered'])
    L.by('its arcs are not retired', forall([q], Imp(row, And(RO[q] == x, Not(D[q]))), [D[q]]), None, C6, only=['row of an exclusion', 'newly retired arcs start at listed vertices', 'retired arcs start at excluded vertices', 'newly excluded'])


def _x5(L):
    et, eh0, RO, LOC, W2, NB = _xg(L); n = L.c.v.sv('vertices'); cur, s = _here(L); b = L.off('ex_arc_arc'); x = _ehv(L).at(L.off('ex_arc')); p = z3.Int('p'); D, D0 = L.g('D'), L.entry.ghosts['D']
    return [('position', And(et(x) <= b, b <= et(x + 1)))] + sort_inv(L, cur + 1, L.g('EH0'), et(n)) + kept_since(L, cur) + _passed(L, cur) + [
        ('arcs ahead are not retired', forall([p], Imp(And(b <= p, p < et(x + 1)), Not(D[p])), [D[p]])),
        ('newly retired arcs are of this row', forall([p], Imp(And(0 <= p, p < et(n), D[p]), Or(D0[p], RO[p] == x)), [D[p]]))]


def _x5_head(L):
    et, eh0, RO, LOC, W2, NB = _xg(L); b = L.off('ex_arc_arc'); EH = _ehv(L).at; x = EH(L.off('ex_arc')); n = L.c.v.sv('vertices')
    one_left(L, b, L.g('EH0'), et(n))
    L.by('arc of the listed vertex', Imp(b < et(x + 1), And(EH(b) == eh0(b), RO[b] == x, 0 <= eh0(b), eh0(b) < n)), None, C6, only=['its row is as it was'])


def _x5_step(L):
    et = _xg(L)[0]
    retire(L, L.p('ex_arc_arc').off, L.g('EH0'), et(L.c.v.sv('vertices')))


r = reg('iscc_findseeds_exclusion', _xe_pre, _fs_post,
        loops={0: LoopSpec(_x0, ghosts=('PI',), ghost0=lambda L: L.setg('PI', const('PI', AI)), step=_x0_step),
               1: LoopSpec(_x1, ghosts=('OWN', 'OWP', 'BLK', 'D'), ghost0=_x1_g0, head=_x1_head, step=_x1_step, exit=_x1_exit),
               2: LoopSpec(_x2, head=_row_head),
               3: LoopSpec(_x3, ghosts=('SP',), ghost0=lambda L: L.setg('SP', const('SP', AI)), head=_row_head, step=_x3_step),
               4: LoopSpec(_x4, ghosts=('D',), head=_x4_head),
               5: LoopSpec(_x5, ghosts=('D',), head=_x5_head, step=_x5_step)},
        props=('C06', 'C01', 'C11', 'C12', 'C16'))
r.variants = [{'upd': False}, {'upd': True}]
r.after = {'iscc_fs_exclusion_graph': _x_graph}
