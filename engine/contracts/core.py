from .base import *

# ------------------------------------------------------------------ error.c
C16 = ('C16',)


def _make_error_pre(c):
    c.fact('a proper error code', c.a('ec') > c.const('SCC_ER_OK'))


# iscc_make_error__ is inlined at call sites (four assignments); its own contract is still proved
def _me_post(c):
    def body():
        c.fact('code recorded', c.glob('iscc_error_code').f('') == c.a('ec'), C16)
        for g, a in (('iscc_error_msg', 'msg'), ('iscc_error_file', 'file')):
            p, q = c.glob(g).f(''), c.a(a)
            c.fact(g + ' recorded', B(p is q or (p.obj == q.obj and num(p.off) == num(q.off))), C16)
        c.fact('line recorded', c.glob('iscc_error_line').f('') == c.a('line'), C16)
    return [('returns the code', c.ret == c.a('ec'), body)]


reg('iscc_make_error__', lambda c: (_make_error_pre(c), c.arr('msg', 1, null='maybe'), c.arr('file', 1)), _me_post,
    inline=True, modifies_errors=True, globs=('iscc_error_code', 'iscc_error_msg', 'iscc_error_file', 'iscc_error_line'), props=C16)


def _reset_post(c):
    def body():
        c.fact('no error recorded', c.glob('iscc_error_code').f('') == c.const('SCC_ER_OK'), C16)
        c.null(c.glob('iscc_error_msg').loc(''), C16)
    return [('done', T, body)]


reg('iscc_reset_error', lambda c: None, _reset_post, inline=True, modifies_errors=True,
    globs=('iscc_error_code', 'iscc_error_msg', 'iscc_error_file', 'iscc_error_line'), props=C16)


def _gle_pre(c):
    c.v.buf = c.arr('error_message_buffer', c.a('len_error_message_buffer'), null='maybe', mod=True)
    c.glob('iscc_error_code')
    # representation: messages are null or valid strings, the file name is a valid string
    for g, nl in (('iscc_error_msg', 'maybe'), ('iscc_error_file', None)):
        gv = c.glob(g)
        c.arr(gv.loc(''), 1, null=nl)
    c.glob('iscc_error_line')


MSG = {'SCC_ER_INVALID_INPUT': 'Function parameters are invalid.', 'SCC_ER_NO_MEMORY': 'Cannot allocate required memory.',
       'SCC_ER_NO_SOLUTION': 'Clustering problem has no solution.', 'SCC_ER_TOO_LARGE_PROBLEM': 'Clustering problem is too large.',
       'SCC_ER_DIST_SEARCH_ERROR': 'Failed to calculate distances.', 'SCC_ER_NOT_IMPLEMENTED': 'Functionality not yet implemented.'}


def _gle_post(c):
    n = c.a('len_error_message_buffer'); isn = c.v.buf.isnull
    bad = Or(n == 0, isn)

    def good():
        k = z3.Int('k')
        c.fact('string terminated inside the buffer', exists([k], And(0 <= k, k < n, c.v.buf.at(k) == 0), [c.v.buf.at(k)]), C16)
        evs = [e for e in c.st.events if e[0] == 'snprintf']
        c.fact('one message is written', B(len(evs) == 1), C16)
        if len(evs) != 1:
            return
        args = evs[0][1]
        code = c.glob('iscc_error_code').o('')
        fmt = c.st.heap[args[2].v.obj].name
        last = args[-1].v
        lastname = c.st.heap[last.obj].name if isinstance(last.obj, int) and last.obj in c.st.heap else ''
        msg = c.old.heap[c.st.frames[0]['iscc_error_msg']].c[(0, '')]
        own = last.obj == msg.obj
        c.fact('an error with its own message is described by that message',
               Imp(And(code != c.const('SCC_ER_OK'), Not(msg.null)), B(own and '%s' in fmt and '%s' in fmt[fmt.find(')'):])), C16)
        if not own:
            texts = {lastname.strip('"')} if lastname else set()
            c.fact('no error is said to be no error', Imp(code == c.const('SCC_ER_OK'), B('No error' in lastname)), C16)
            c.fact('an error is never described as no error', Imp(code != c.const('SCC_ER_OK'), B('No error' not in lastname and lastname != '')), C16)
            for e, t in MSG.items():
                others = [x for k2, x in MSG.items() if k2 != e]
                c.fact('text of %s is its own' % e, Imp(And(code == c.const(e)), B(not any(x in lastname for x in others) and 'nknown' not in lastname)), C16)
    return [('refused', And(bad, Not(c.ret)), None), ('written', And(Not(bad), c.ret), good), ('write error', And(Not(bad), Not(c.ret)), None)]


reg('scc_get_latest_error', _gle_pre, _gle_post, props=C16)

# ------------------------------------------------------------------ digraph_core.c
C7 = ('C07',)


def _free_dg_pre(c):
    sv = c.struct('dg', mod=True)
    c.v.sv = sv
    v, m = sv('vertices'), sv('max_arcs')
    tn = 'maybe'
    c.v.t = c.arr(sv.loc('tail_ptr'), v + 1, null='maybe', heap=True)
    c.v.h = c.arr(sv.loc('head'), m, null='maybe', heap=True)


def _free_dg_post(c):
    def body():
        c.freed(c.v.t); c.freed(c.v.h)
        c.null(c.v.sv.loc('tail_ptr')); c.null(c.v.sv.loc('head'))
        c.fact('null digraph', And(c.v.sv('vertices') == 0, c.v.sv('max_arcs') == 0), C7)
    return [('freed', T, body)]


reg('iscc_free_digraph', _free_dg_pre, _free_dg_post, inline=True, props=('C12', 'C11'))


def _init_pre(c):
    c.fact('vertices in range', And(c.a('vertices') >= 1, c.a('vertices') <= c.const('ISCC_POINTINDEX_MAX'), c.a('vertices') < (1 << 62)))
    c.v.out = c.struct('out_dg', mod=True)


def _init_post(zeroed):
    def post(c):
        out = c.v.out; n = c.a('vertices'); m = c.a('max_arcs')
        big = m > c.const('ISCC_ARCINDEX_MAX')

        def ok():
            c.fact('sizes stored', And(out('vertices') == n, out('max_arcs') == m), C7)
            t = c.fresh(out.loc('tail_ptr'), n + 1)
            h = c.fresh(out.loc('head'), m, null=(m == 0))
            if zeroed:
                k = z3.Int('k')
                c.fact('all rows empty', forall([k], Imp(And(0 <= k, k <= n), t.at(k) == 0), [t.at(k)]), C7)

        def nomem():
            c.null(out.loc('tail_ptr')); c.null(out.loc('head'))

        def keep():
            for f in ('vertices', 'max_arcs', 'tail_ptr', 'head'):
                c.same(out.loc(f))
        return [('ok', And(c.ret == EC(c, 'OK'), Not(big)), ok),
                ('error no memory', And(c.ret == EC(c, 'NO_MEMORY'), Not(big), oom(c)), nomem),
                ('error too large', And(c.ret == EC(c, 'TOO_LARGE_PROBLEM'), big), keep)]
    return post


reg('iscc_init_digraph', _init_pre, _init_post(False), props=('C07', 'C11', 'C12'))
reg('iscc_empty_digraph', _init_pre, _init_post(True), props=('C07', 'C11', 'C12'))


def _cas_pre(c):
    sv = c.struct('dg', mod={'max_arcs', 'head'})
    c.v.sv = sv
    t, h = dg_shape(c, sv, mod_head=True)
    c.v.t, c.v.h = t, h
    c.fact('used arcs fit the new storage', t.at(sv('vertices')) <= c.a('new_max_arcs'))


def _cas_post(c):
    sv, t, h = c.v.sv, c.v.t, c.v.h
    n = c.a('new_max_arcs'); m = sv.o('max_arcs')
    big = n > c.const('ISCC_ARCINDEX_MAX')
    k = z3.Int('k')

    def resized():
        c.fact('new size', sv('max_arcs') == n, C7)
        c.same(sv.loc('head'))
        c.resized(h, n)
        c.fact('arcs kept', forall([k], Imp(And(0 <= k, k < n, k < m), h.at(k) == h.o(k)), [h.at(k)]), C7)

    def grown():
        c.fact('new size', sv('max_arcs') == n, C7)
        c.fresh(sv.loc('head'), n)

    def shrunk():
        c.fact('new size', sv('max_arcs') == 0, C7)
        c.freed(h)
        c.null(sv.loc('head'))

    def keep():
        c.same(sv.loc('max_arcs')); c.same(sv.loc('head'))
        c.fact('arcs kept', unchanged(c, h), C7)
    return [('resized', And(c.ret == EC(c, 'OK'), Not(big), n > 0, m > 0, n != m), resized),
            ('same size', And(c.ret == EC(c, 'OK'), Not(big), n == m), keep),
            ('grown from nothing', And(c.ret == EC(c, 'OK'), Not(big), n > 0, m == 0), grown),
            ('emptied', And(c.ret == EC(c, 'OK'), n == 0, m > 0), shrunk),
            ('error no memory', And(c.ret == EC(c, 'NO_MEMORY'), Not(big), n > 0, n != m, oom(c)), keep),
            ('error too large', And(c.ret == EC(c, 'TOO_LARGE_PROBLEM'), big), keep)]


reg('iscc_change_arc_storage', _cas_pre, _cas_post, props=('C07', 'C11', 'C12'))

# ------------------------------------------------------------------ scclust.c
C13 = ('C13',)
CI = ('C10', 'C13')


def _ver_pre(c):
    for n in ('out_major', 'out_minor', 'out_patch'):
        setattr(c.v, n, c.struct(n, null='maybe', mod=True))


reg('scc_get_compiled_version', _ver_pre, lambda c: [('done', T, None)], props=('C12',))


def _cl_cell(c, loc='out_clustering'):
    c.v.out = c.struct(loc, null='maybe', mod=True)
    return c.v.out


def _iec_pre(c):
    n = c.a('num_data_points')
    c.v.lab = c.arr('external_cluster_labels', n, null='maybe')
    _cl_cell(c)


def _iec_post(c):
    out = c.v.out; n = c.a('num_data_points')
    nul = out.isnull
    zero, big = n == 0, Or(n > c.const('ISCC_POINTINDEX_MAX'), n > (1 << 64) - 2)

    def none():
        if not is_true(nul):
            pass
        c.null(out.loc(''), C13)

    def ok():
        cl = c.fresh_struct(out.loc(''))
        c.fact('fields', And(cl('clustering_version') == c.const('ISCC_CLUSTERING_STRUCT_VERSION'), cl('num_data_points') == n, cl('num_clusters') == 0,
                             cl('external_labels') == Not(c.v.lab.isnull)), C13)
        c.points(cl.loc('cluster_label'), c.v.lab.p, tags=C13)
    return [('no output', And(nul, c.ret == EC(c, 'INVALID_INPUT')), None),
            ('zero points', And(Not(nul), zero, c.ret == EC(c, 'INVALID_INPUT')), none),
            ('too many', And(Not(nul), Not(zero), big, c.ret == EC(c, 'TOO_LARGE_PROBLEM')), none),
            ('no memory', And(Not(nul), Not(zero), Not(big), c.ret == EC(c, 'NO_MEMORY'), oom(c)), none),
            ('ok', And(Not(nul), Not(zero), Not(big), c.ret == EC(c, 'OK')), ok)]


reg('scc_init_empty_clustering', _iec_pre, _iec_post, props=('C13', 'C10', 'C11', 'C12', 'C16'))


def _iex_pre(c):
    n = c.a('num_data_points')
    c.v.lab = c.arr('current_cluster_labels', n, null='maybe')
    _cl_cell(c)


def _iex_post(c):
    out = c.v.out; n = c.a('num_data_points'); k = c.a('num_clusters'); lab = c.v.lab
    nul = out.isnull
    inv = Or(n == 0, k == 0, lab.isnull)
    big = Or(n > c.const('ISCC_POINTINDEX_MAX'), n > (1 << 64) - 2, k > c.const('SCC_CLABEL_MAX'))

    def none():
        c.null(out.loc(''), C13)

    def ok():
        cl = c.fresh_struct(out.loc(''))
        deep = c.a('deep_label_copy')
        c.fact('fields', And(cl('clustering_version') == c.const('ISCC_CLUSTERING_STRUCT_VERSION'), cl('num_data_points') == n, cl('num_clusters') == k,
                             cl('external_labels') == Not(deep)), C13)
        # the two label representations are separate paths
        if c.eng.quick(c.st, deep):
            l = c.fresh(cl.loc('cluster_label'), n)
            q = z3.Int('q')
            c.fact('labels copied', forall([q], Imp(And(0 <= q, q < n), l.at(q) == lab.at(q)), [l.at(q)]), C13)
        elif c.eng.quick(c.st, Not(deep)):
            c.points(cl.loc('cluster_label'), lab.p, tags=C13)
        else:
            c.fact('deep copy decided', F, C13)
    return [('no output', And(nul, c.ret == EC(c, 'INVALID_INPUT')), None),
            ('invalid', And(Not(nul), inv, c.ret == EC(c, 'INVALID_INPUT')), none),
            ('too large', And(Not(nul), big, c.ret == EC(c, 'TOO_LARGE_PROBLEM')), none),
            ('no memory', And(Not(nul), Not(inv), Not(big), c.ret == EC(c, 'NO_MEMORY'), oom(c)), none),
            ('ok', And(Not(nul), Not(inv), Not(big), c.ret == EC(c, 'OK')), ok)]


reg('scc_init_existing_clustering', _iex_pre, _iex_post, props=('C13', 'C10', 'C11', 'C12', 'C16'))


def _fc_pre(c):
    cell = c.struct('clustering', null='maybe', mod=True)
    c.v.cell = cell
    cl = c.struct(cell.loc(''), null='maybe', heap=True)
    c.v.cl = cl
    ext = c.variant['ext']
    c.fact('label ownership', cl('external_labels') == B(ext))
    c.v.lab = c.arr(cl.loc('cluster_label'), cl('num_data_points'), null='maybe', heap=not ext)


def _fc_post(c):
    nul = Or(c.v.cell.isnull, c.v.cl.isnull)

    def body():
        c.freed(c.v.cl)
        c.null(c.v.cell.loc(''), C13)
        if not c.variant['ext']:
            c.freed(c.v.lab)

    def keep():
        if True:
            p = c.v.cell.f('')
            c.fact('pointer kept', Or(c.v.cell.isnull, c.eng.isnull(p)), C13)
    return [('nothing to free', nul, keep), ('freed', Not(nul), body)]


r = reg('scc_free_clustering', _fc_pre, _fc_post, props=('C13', 'C11', 'C12'))
r.variants = [{'ext': True}, {'ext': False}]


def clustering_arg(c, loc='clustering', null='maybe', mod=False, mod_labels=False):
    """a clustering pointer as a user may pass it: null, or a struct whose labels are null or cover all points"""
    cl = c.struct(loc, null=null, mod=mod)
    lab = c.arr(cl.loc('cluster_label'), cl('num_data_points'), null='maybe', mod=mod_labels)
    return cl, lab


def cl_valid(c, cl, lab, st='o'):
    g = getattr(cl, st)
    return And(Not(cl.isnull), g('clustering_version') == c.const('ISCC_CLUSTERING_STRUCT_VERSION'), g('num_data_points') > 0,
               g('num_data_points') <= c.const('ISCC_POINTINDEX_MAX'), g('num_clusters') <= c.const('SCC_CLABEL_MAX'),
               Or(g('num_clusters') == 0, Not(lab.isnull)))


def _isin_pre(c):
    c.v.cl, c.v.lab = clustering_arg(c)


reg('scc_is_initialized_clustering', _isin_pre, lambda c: [('exact', c.ret == cl_valid(c, c.v.cl, c.v.lab), None)], inline=True, props=('C13', 'C10'))


def _copy_pre(c):
    c.v.cl, c.v.lab = clustering_arg(c, 'in_clustering')
    _cl_cell(c)


def _copy_post(c):
    out, cl, lab = c.v.out, c.v.cl, c.v.lab
    nul = out.isnull; ok_in = cl_valid(c, cl, lab)

    def none():
        c.null(out.loc(''), C13)

    def ok():
        x = c.fresh_struct(out.loc(''))
        n = cl.o('num_data_points'); k = cl.o('num_clusters')
        c.fact('fields', And(x('clustering_version') == c.const('ISCC_CLUSTERING_STRUCT_VERSION'), x('num_data_points') == n, x('num_clusters') == k, Not(x('external_labels'))), C13)
        if c.eng.quick(c.st, k > 0):
            l = c.fresh(x.loc('cluster_label'), n)
            q = z3.Int('q')
            c.fact('labels copied', forall([q], Imp(And(0 <= q, q < n), l.at(q) == lab.at(q)), [l.at(q)]), C13)
        else:
            c.null(x.loc('cluster_label'), C13)
    return [('no output', And(nul, c.ret == EC(c, 'INVALID_INPUT')), None),
            ('invalid', And(Not(nul), Not(ok_in), c.ret == EC(c, 'INVALID_INPUT')), none),
            ('no memory', And(Not(nul), ok_in, c.ret == EC(c, 'NO_MEMORY'), oom(c)), none),
            ('ok', And(Not(nul), ok_in, c.ret == EC(c, 'OK')), ok)]


reg('scc_copy_clustering', _copy_pre, _copy_post, props=('C13', 'C10', 'C11', 'C12', 'C16'))


def _info_pre(c):
    c.v.cl, c.v.lab = clustering_arg(c)
    c.v.a = c.struct('out_num_data_points', null='maybe', mod=True)
    c.v.b = c.struct('out_num_clusters', null='maybe', mod=True)


def _info_post(c):
    cl = c.v.cl
    v = cl_valid(c, cl, c.v.lab)

    def ok():
        c.fact('number of points reported', Or(c.v.a.isnull, c.v.a('') == cl('num_data_points')), C13)
        c.fact('number of clusters reported', Or(c.v.b.isnull, c.v.b('') == cl('num_clusters')), C13)
    return [('ok', And(v, c.ret == EC(c, 'OK')), ok), ('invalid', And(Not(v), c.ret == EC(c, 'INVALID_INPUT')), None)]


reg('scc_get_clustering_info', _info_pre, _info_post, props=('C13', 'C10', 'C16', 'C12'))


def _gl_pre(c):
    c.v.cl, c.v.lab = clustering_arg(c)
    c.v.buf = c.arr('out_label_buffer', c.a('len_out_label_buffer'), null='maybe', mod=True)


def _gl_post(c):
    cl, lab, buf = c.v.cl, c.v.lab, c.v.buf
    v = And(cl_valid(c, cl, lab), cl('num_clusters') > 0, c.a('len_out_label_buffer') > 0, Not(buf.isnull))
    n = cl('num_data_points'); k = z3.Int('k')

    def ok():
        c.fact('labels copied and padded', forall([k], Imp(And(0 <= k, k < c.a('len_out_label_buffer')), buf.at(k) == Ite(k < n, lab.at(k), NA(c))), [buf.at(k)]), C13)

    def keep():
        c.fact('buffer untouched', Or(buf.isnull, unchanged(c, buf)), C13)
    return [('ok', And(v, c.ret == EC(c, 'OK')), ok), ('invalid', And(Not(v), c.ret == EC(c, 'INVALID_INPUT')), keep)]


def _gl_inv(L):
    c = L.c; k = z3.Int('k'); w = L.v('write'); buf, lab = c.v.buf, c.v.lab
    return [('prefix written', forall([k], Imp(And(0 <= k, k < w), buf.at(k) == Ite(k < c.v.cl('num_data_points'), lab.at(k), NA(c))), [buf.at(k)]))]


reg('scc_get_cluster_labels', _gl_pre, _gl_post, loops={0: LoopSpec(_gl_inv), 1: LoopSpec(lambda L: _gl_inv(L) + [('labels done', Or(L.v('write') >= L.c.v.cl('num_data_points'), L.v('write') >= L.v('len_out_label_buffer')))])},
    props=('C13', 'C10', 'C12', 'C16'))

# ------------------------------------------------------------------ data_set.c


def _ids_pre(c):
    c.v.dm = c.arr('data_matrix', c.a('len_data_matrix'), null='maybe')
    c.v.out = c.struct('out_data_set', null='maybe', mod=True)


def _ids_post(c):
    n, d, l = c.a('num_data_points'), c.a('num_dimensions'), c.a('len_data_matrix')
    out = c.v.out; nul = out.isnull
    prod = mul(n, d)
    inv = Or(n == 0, d == 0, c.v.dm.isnull, l < prod)
    big = Or(n > c.const('ISCC_POINTINDEX_MAX'), n > (1 << 64) - 2, d > 65535)

    def none():
        c.null(out.loc(''), C13)

    def ok():
        x = c.fresh_struct(out.loc(''))
        c.fact('fields', And(x('data_set_version') == c.const('ISCC_DATASET_STRUCT_VERSION'), x('num_data_points') == n, x('num_dimensions') == d), C13)
        c.points(x.loc('data_matrix'), c.v.dm.p, tags=C13)
        c.fact('matrix covers all points', l >= prod, CI)
    return [('no output', And(nul, c.ret == EC(c, 'INVALID_INPUT')), None),
            ('invalid', And(Not(nul), inv, c.ret == EC(c, 'INVALID_INPUT')), none),
            ('too large', And(Not(nul), big, c.ret == EC(c, 'TOO_LARGE_PROBLEM')), none),
            ('no memory', And(Not(nul), Not(inv), Not(big), c.ret == EC(c, 'NO_MEMORY'), oom(c)), none),
            ('ok', And(Not(nul), Not(inv), Not(big), c.ret == EC(c, 'OK')), ok)]


reg('scc_init_data_set', _ids_pre, _ids_post, props=('C13', 'C10', 'C11', 'C12', 'C16'))


def _fds_pre(c):
    c.v.cell = c.struct('data_set', null='maybe', mod=True)
    c.v.ds = c.struct(c.v.cell.loc(''), null='maybe', heap=True)
    c.v.dm = c.arr(c.v.ds.loc('data_matrix'), mul(c.v.ds('num_data_points'), c.v.ds('num_dimensions')), null='maybe')


def _fds_post(c):
    nul = Or(c.v.cell.isnull, c.v.ds.isnull)
    return [('nothing', nul, lambda: c.fact('pointer kept', Or(c.v.cell.isnull, c.eng.isnull(c.v.cell.f(''))), C13)),
            ('freed', Not(nul), lambda: (c.freed(c.v.ds), c.null(c.v.cell.loc(''), C13)))]


reg('scc_free_data_set', _fds_pre, _fds_post, props=('C13', 'C11', 'C12'))


def _isds_pre(c):
    c.v.ds = c.struct('data_set', null='maybe')
    c.v.dm = c.arr(c.v.ds.loc('data_matrix'), mul(c.v.ds('num_data_points'), c.v.ds('num_dimensions')), null='maybe')


def _isds_post(c):
    ds = c.v.ds
    ok = And(Not(ds.isnull), ds('data_set_version') == c.const('ISCC_DATASET_STRUCT_VERSION'), ds('num_data_points') != 0, ds('num_dimensions') != 0, Not(c.v.dm.isnull))
    return [('exact', c.ret == ok, None)]


reg('scc_is_initialized_data_set', _isds_pre, _isds_post, inline=True, props=('C13', 'C10'))

# ------------------------------------------------------------------ scclust_spi.c, dist_search.h
C15 = ('C15',)
FN = ['check_data_set', 'num_data_points', 'get_dist_matrix', 'get_dist_rows', 'init_max_dist_object', 'get_max_dist', 'close_max_dist_object',
      'init_nn_search_object', 'nearest_neighbor_search', 'close_nn_search_object']


def _spi_reset_post(c):
    def body():
        t = c.glob('iscc_dist_functions')
        for f in FN:
            c.fact('%s is the built-in function' % f, t(f) == c.eng.fnid('iscc_imp_' + f), C15)
    return [('restored', c.ret, body)]


reg('scc_reset_dist_functions', lambda c: c.glob('iscc_dist_functions'), _spi_reset_post, globs=('iscc_dist_functions',), props=C15)


def _spi_set_post(c):
    t = c.glob('iscc_dist_functions')
    new = {f: c.a(f) for f in FN}
    g1 = FN[4:7]; g2 = FN[7:10]

    def full(g):
        return And(*[new[f] != 0 for f in g])

    def part(g):
        return And(Or(*[new[f] != 0 for f in g]), Or(*[new[f] == 0 for f in g]))

    def body():
        for f in FN[:4]:
            c.fact('%s replaced when given, else kept' % f, t(f) == Ite(new[f] != 0, new[f], t.o(f)), C15)

    def all_ok():
        body()
        for g in (g1, g2):
            for f in g:
                c.fact('%s replaced with its group, else kept' % f, t(f) == Ite(full(g), new[f], t.o(f)), C15)

    def refused():
        body()
        for g in (g1, g2):
            took = And(*[t(f) == new[f] for f in g]); kept = And(*[t(f) == t.o(f) for f in g])
            c.fact('group %s is not mixed' % g[1], And(Or(kept, And(full(g), took)), Imp(part(g), kept)), C15)
    p = Or(part(g1), part(g2))
    return [('accepted', And(c.ret, Not(p)), all_ok), ('refused', And(Not(c.ret), p), refused)]


reg('scc_set_dist_functions', lambda c: c.glob('iscc_dist_functions'), _spi_set_post, globs=('iscc_dist_functions',), props=C15)


# default options are valid
def _def_post(c):
    def body():
        r = c.ret
        g = lambda f: r[f]
        c.fact('documented defaults', And(g('options_version') == c.const('ISCC_OPTIONS_STRUCT_VERSION'), g('size_constraint') == 0, g('num_types') == 0, g('len_type_labels') == 0,
                                          g('len_primary_data_points') == 0, g('batch_size') == 0, g('seed_radius') == c.const('SCC_RM_NO_RADIUS')), ('C10',))
    return [('defaults', T, body)]


reg('scc_get_default_options', lambda c: None, _def_post, props=('C10',))
