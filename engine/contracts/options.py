from .base import *
C10 = ('C10',)


def options_arg(c, loc='options', null=None):
    """an option struct whose arrays, when given, have the stated lengths"""
    o = c.struct(loc, null=null)
    o.tc = c.arr(o.loc('type_constraints'), o('num_types'), null='maybe')
    o.tl = c.arr(o.loc('type_labels'), o('len_type_labels'), null='maybe')
    o.pd = c.arr(o.loc('primary_data_points'), o('len_primary_data_points'), null='maybe')
    return o


def opt_rules(c, o, n):
    """name -> (error code, violated)"""
    k = lambda x: c.const(x)
    i, j = ivars('i', 'j')
    g = o.f
    inv, nos, big, nim = (EC(c, x) for x in ('INVALID_INPUT', 'NO_SOLUTION', 'TOO_LARGE_PROBLEM', 'NOT_IMPLEMENTED'))
    two = g('num_types') >= 2
    sm, pu, su = g('seed_method'), g('primary_unassigned_method'), g('secondary_unassigned_method')
    sr, pr, rr = g('seed_radius'), g('primary_radius'), g('secondary_radius')
    isin = lambda x, *l: Or(*[x == k(y) for y in l])
    R4 = ('SCC_RM_NO_RADIUS', 'SCC_RM_USE_SUPPLIED', 'SCC_RM_USE_SEED_RADIUS', 'SCC_RM_USE_ESTIMATED')
    sup = k('SCC_RM_USE_SUPPLIED')
    bat = sm == k('SCC_SM_BATCHES')
    unsorted_ = And(Not(o.pd.isnull), exists([i], And(1 <= i, i < g('len_primary_data_points'), o.pd.at(i - 1) >= o.pd.at(i)), [o.pd.at(i)]))
    return {
        'version': (inv, g('options_version') != k('ISCC_OPTIONS_STRUCT_VERSION')),
        'size constraint at least 2': (inv, g('size_constraint') < 2),
        'enough points': (nos, n < g('size_constraint')),
        'no type arrays without types': (inv, And(Not(two), Or(Not(o.tc.isnull), g('len_type_labels') != 0, Not(o.tl.isnull)))),
        'number of types': (big, And(two, Or(g('num_types') > k('ISCC_TYPELABEL_MAX'), g('num_types') > 65535))),
        'type arrays with types': (inv, And(two, Or(o.tc.isnull, g('len_type_labels') < n, o.tl.isnull))),
        'seed method': (inv, Not(isin(sm, 'SCC_SM_LEXICAL', 'SCC_SM_BATCHES', 'SCC_SM_INWARDS_ORDER', 'SCC_SM_INWARDS_UPDATING', 'SCC_SM_EXCLUSION_ORDER', 'SCC_SM_EXCLUSION_UPDATING'))),
        'primary list and its length agree': (inv, Not(o.pd.isnull) != (g('len_primary_data_points') != 0)),
        'primary list sorted': (inv, unsorted_),
        'primary unassigned method': (inv, Not(isin(pu, 'SCC_UM_IGNORE', 'SCC_UM_ANY_NEIGHBOR', 'SCC_UM_CLOSEST_ASSIGNED', 'SCC_UM_CLOSEST_SEED'))),
        'secondary unassigned method': (inv, Not(isin(su, 'SCC_UM_IGNORE', 'SCC_UM_CLOSEST_ASSIGNED', 'SCC_UM_CLOSEST_SEED'))),
        'seed radius method': (inv, Not(isin(sr, 'SCC_RM_NO_RADIUS', 'SCC_RM_USE_SUPPLIED'))),
        'seed radius positive': (inv, And(sr == sup, g('seed_supplied_radius') <= 0)),
        'primary radius method': (inv, Not(isin(pr, *R4))),
        'primary radius positive': (inv, And(pr == sup, g('primary_supplied_radius') <= 0)),
        'secondary radius method': (inv, Not(isin(rr, *R4))),
        'secondary radius positive': (inv, And(rr == sup, g('secondary_supplied_radius') <= 0)),
        'batches without types': (nim, And(bat, two)),
        'batches without secondary method': (nim, And(bat, su != k('SCC_UM_IGNORE'))),
        'batches with seed radius as primary radius': (nim, And(bat, pr != k('SCC_RM_USE_SEED_RADIUS'))),
    }


def _cco_pre(c):
    c.v.o = options_arg(c)


def opt_ok(c, o, n, pref=''):
    for name, (code, bad) in opt_rules(c, o, n).items():
        if name == 'primary list sorted':
            i, j = ivars('i', 'j')
            bad = Not(Or(o.pd.isnull, forall([i, j], Imp(And(0 <= i, i < j, j < o('len_primary_data_points')), o.pd.at(i) < o.pd.at(j)), [(o.pd.at(i), o.pd.at(j))])))
        c.fact(pref + 'options satisfy: ' + name, Not(bad), C10)


def _cco_post(c):
    o = c.v.o; n = c.a('num_data_points')
    rules = opt_rules(c, o, n)
    codes = {}
    for nm, (code, bad) in rules.items():
        codes.setdefault(num(code), []).append(bad)

    def ok():
        opt_ok(c, o, n)
    r = [('ok', c.ret == EC(c, 'OK'), ok)]
    for code, bads in codes.items():
        r.append(('error %d' % code, c.ret == code, (lambda bads=bads: c.fact('a rule with the returned code is violated', Or(*bads), C10))))
    return r


def _cco_inv(L):
    o = L.c.v.o
    i, j = ivars('i', 'j')
    p = o.pd
    return [('sorted so far', forall([i, j], Imp(And(0 <= i, i < j, j < L.v('i')), p.at(i) < p.at(j)), [(p.at(i), p.at(j))]))]


reg('iscc_check_cluster_options', _cco_pre, _cco_post, loops={0: LoopSpec(_cco_inv)}, props=('C10', 'C16', 'C12'))
