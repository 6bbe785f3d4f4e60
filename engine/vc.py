"""Verification-condition generator: symbolic execution of the real C functions (pycparser AST of
/repo's preprocessed sources) against contracts.  Loops are cut by invariants, calls use the callee's
contract (or are inlined when the callee has none), every obligation goes to an SMT solver."""
import re, itertools
import z3
z3.set_param('warning', False)
from pycparser import c_ast
from cfront import (CType, BOOL, VOID, DOUBLE, INT, UINT, ULONG, CHAR, ptr, FrontError)


class Unsupported(Exception):
    pass


class Vacuous(Exception):
    pass


T, F = z3.BoolVal(True), z3.BoolVal(False)
IS, BS, RS = z3.IntSort(), z3.BoolSort(), z3.RealSort()
_ctr = itertools.count(1)


def uid():
    return next(_ctr)


def I(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    return z3.IntVal(x) if isinstance(x, int) else x


def num(t):
    """python int of a numeral term or None"""
    if isinstance(t, int):
        return t
    if z3.is_int_value(t):
        return t.as_long()
    return None


def B(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def is_true(x):
    return x is True or (not isinstance(x, bool) and z3.is_true(x))


def is_false(x):
    return x is False or (not isinstance(x, bool) and z3.is_false(x))


def And(*xs):
    ys = []
    for x in xs:
        if is_true(x):
            continue
        if is_false(x):
            return F
        ys.append(x)
    if not ys:
        return T
    return ys[0] if len(ys) == 1 else z3.And(*ys)


def Or(*xs):
    ys = []
    for x in xs:
        if is_false(x):
            continue
        if is_true(x):
            return T
        ys.append(x)
    if not ys:
        return F
    return ys[0] if len(ys) == 1 else z3.Or(*ys)


def Not(x):
    if is_true(x):
        return F
    if is_false(x):
        return T
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Imp(a, b):
    if is_true(a):
        return B(b)
    if is_false(a) or is_true(b):
        return T
    if is_false(b):
        return Not(a)
    return z3.Implies(a, b)


def Ite(c, a, b):
    if is_true(c):
        return a
    if is_false(c):
        return b
    if a is b or (z3.is_expr(a) and z3.is_expr(b) and a.eq(b)):
        return a
    return z3.If(c, a, b)


def _lin(t):
    """split t = base + const"""
    n = num(t)
    if n is not None:
        return None, n
    if z3.is_add(t) and t.num_args() == 2:
        n = num(t.arg(1))
        if n is not None:
            return t.arg(0), n
    return t, 0


def add(a, b):
    a, b = I(a), I(b)
    ba, ca = _lin(a); bb, cb = _lin(b)
    c = ca + cb
    if ba is None and bb is None:
        return I(c)
    if ba is None:
        base = bb
    elif bb is None:
        base = ba
    else:
        base = ba + bb
    return base if c == 0 else base + I(c)


def sub(a, b):
    a, b = I(a), I(b)
    if a.eq(b):
        return I(0)
    nb = num(b)
    if nb is not None:
        return add(a, -nb)
    ba, ca = _lin(a); bb, cb = _lin(b)
    if ba is not None and bb is not None and ba.eq(bb):
        return I(ca - cb)
    # (x + y) - x
    if z3.is_add(a) and a.num_args() == 2:
        if a.arg(0).eq(b):
            return a.arg(1)
        if a.arg(1).eq(b):
            return a.arg(0)
    return a - b


MUL = z3.Function('mul', IS, IS, IS)


def mul(a, b):
    a, b = I(a), I(b)
    na, nb = num(a), num(b)
    if na is not None and nb is not None:
        return I(na * nb)
    if na == 0 or nb == 0:
        return I(0)
    if na == 1:
        return b
    if nb == 1:
        return a
    if na is not None or nb is not None:
        return a * b if nb is None else b * a
    if a.get_id() > b.get_id():
        a, b = b, a
    return MUL(a, b)


def eq(a, b):
    if z3.is_expr(a) and z3.is_expr(b) and a.eq(b):
        return T
    na, nb = (num(a), num(b)) if not isinstance(a, bool) else (None, None)
    if na is not None and nb is not None:
        return B(na == nb)
    return a == b


def has_quant(f, _c={}):
    seen = set(); st = [f]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


def forall(vs, body, pats=None):
    """pats: list of patterns; each a term or a tuple (multi-pattern)"""
    if not isinstance(vs, (list, tuple)):
        vs = [vs]
    if is_true(body):
        return T
    ps = []
    for p in (pats or []):
        ps.append(z3.MultiPattern(*p) if isinstance(p, (tuple, list)) else p)
    try:
        return z3.ForAll(list(vs), body, patterns=ps) if ps else z3.ForAll(list(vs), body)
    except z3.Z3Exception:
        return z3.ForAll(list(vs), body)


def has_ite(f):
    seen = set(); st = [f]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app_of(x, z3.Z3_OP_ITE) or z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


def exists(vs, body, pats=None):
    if not isinstance(vs, (list, tuple)):
        vs = [vs]
    ps = []
    for p in (pats or []):
        ps.append(z3.MultiPattern(*p) if isinstance(p, (tuple, list)) else p)
    return z3.Exists(list(vs), body, patterns=ps) if ps else z3.Exists(list(vs), body)


class Fact:
    __slots__ = ('f', 'q', 'n')

    def __init__(self, f, n=''):
        self.f = f; self.q = has_quant(f); self.n = n


class Ptr:
    __slots__ = ('obj', 'off', 'null', 'path', 'poison')

    def __init__(self, obj, off=0, null=F, path='', poison=None):
        self.obj = obj; self.off = I(off); self.null = B(null); self.path = path; self.poison = poison

    def __repr__(self):
        return 'Ptr(%s+%s%s%s)' % (self.obj, self.off, ' ' + self.path if self.path else '', ' null?%s' % self.null if not is_false(self.null) else '')

    def moved(self, k):
        return Ptr(self.obj, add(self.off, k), self.null, self.path, self.poison)

    def fam(self):
        return not isinstance(self.obj, int)


NULL = Ptr(0, 0, T)
# comparison functions handed to qsort (under contract themselves) and the field they order by
QSORT_KEY = {'iscc_hi_compare_dist_edges': 'distance'}


class PA:
    """array of pointers: target None (only nulls/unknown so far), an oid, or 'fam'"""
    __slots__ = ('target', 'objs', 'offs', 'nulls')

    def __init__(self, target, objs, offs, nulls):
        self.target = target; self.objs = objs; self.offs = offs; self.nulls = nulls

    def same(self, o):
        return isinstance(o, PA) and self.target == o.target and self.objs.eq(o.objs) and self.offs.eq(o.offs) and self.nulls.eq(o.nulls)


class Val:
    __slots__ = ('t', 'v')

    def __init__(self, t, v):
        self.t = t; self.v = v

    def __repr__(self):
        return 'Val(%s,%s)' % (self.t, self.v)


class OS:
    """object state"""
    __slots__ = ('elem', 'len', 'alive', 'mode', 'c', 'bytes', 'kind', 'name', 'ro')

    def __init__(self, elem, ln, mode, c, kind, name='', alive=True, bytes=None):
        self.elem = elem; self.len = ln; self.mode = mode; self.c = c; self.kind = kind; self.name = name
        self.alive = alive; self.bytes = bytes; self.ro = False

    def copy(self):
        o = OS(self.elem, self.len, self.mode, dict(self.c), self.kind, self.name, self.alive, self.bytes)
        o.ro = self.ro
        return o


class State:
    __slots__ = ('frames', 'heap', 'pc', 'fam', 'oom', 'ghosts', 'trace', 'new', 'writes', 'events', 'depth')

    def __init__(self):
        self.frames = [{}]; self.heap = {}; self.pc = []; self.fam = {}; self.oom = False
        self.ghosts = {}; self.trace = []; self.new = frozenset(); self.writes = None; self.events = ()

    def copy(self):
        s = State.__new__(State)
        s.frames = [dict(f) for f in self.frames]; s.heap = dict(self.heap); s.pc = list(self.pc)
        s.fam = dict(self.fam); s.oom = self.oom; s.ghosts = dict(self.ghosts); s.trace = list(self.trace)
        s.new = self.new; s.writes = set(self.writes) if self.writes is not None else None; s.events = self.events
        return s

    def assume(self, f, n=''):
        if is_true(f):
            return
        if z3.is_and(f):
            for x in f.children():
                self.assume(x, n)
            return
        self.pc.append(Fact(f, n))

    def note(self, s):
        self.trace.append(s)


class Ob:
    __slots__ = ('fn', 'kind', 'name', 'tags', 'pc', 'goal', 'oom', 'trace', 'status', 'backend', 'time', 'out', 'model')

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))


def leafs(t, pre=''):
    if t.k == 'struct':
        if t.fields is None:
            raise Unsupported('incomplete struct ' + str(t.name))
        r = []
        for n, ft in t.fields:
            r += leafs(ft, pre + '.' + n if pre else n)
        return r
    return [(pre, t)]


def sort_of(t):
    if t.k == 'int':
        return IS
    if t.k == 'bool':
        return BS
    if t.k == 'double':
        return RS
    if t.k == 'ptr' and t.to.k == 'func':
        return IS
    raise Unsupported('sort of %r' % t)


def is_fn_ptr(t):
    return t.k == 'ptr' and t.to.k == 'func'


def lim(t):
    if t.k == 'bool':
        return 0, 1
    if t.signed:
        return -(1 << (t.bits - 1)), (1 << (t.bits - 1)) - 1
    return 0, (1 << t.bits) - 1


FADD = z3.Function('fadd', RS, RS, RS); FSUB = z3.Function('fsub', RS, RS, RS)
FMUL = z3.Function('fmul', RS, RS, RS); FDIV = z3.Function('fdiv', RS, RS, RS)
FSQRT = z3.Function('fsqrt', RS, RS); I2D = z3.Function('i2d', IS, RS); D2I = z3.Function('d2i', RS, IS)
FLOG2 = z3.Function('flog2', RS, RS)


def _fp_axioms():
    a, b = z3.Reals('fa fb'); i, j = z3.Ints('fi fj')
    return {
        'fadd': [forall([a, b], Imp(And(a >= 0, b >= 0), And(FADD(a, b) >= a, FADD(a, b) >= b)), [FADD(a, b)])],
        'fmul': [forall([a], FMUL(a, a) >= 0, [FMUL(a, a)])],
        'fsqrt': [forall([a], Imp(a >= 0, FSQRT(a) >= 0), [FSQRT(a)]),
                  forall([a, b], Imp(And(0 <= a, a <= b), FSQRT(a) <= FSQRT(b)), [(FSQRT(a), FSQRT(b))])],
        'i2d': [forall([i], Imp(i >= 0, I2D(i) >= 0), [I2D(i)]), I2D(I(0)) == 0, I2D(I(1)) == 1],
        'mul': [forall([i, j], MUL(i, j) == MUL(j, i), [MUL(i, j)]),
                forall([i, j], Imp(And(i >= 0, j >= 0), MUL(i, j) >= 0), [MUL(i, j)]),
                forall([i, j], Imp(And(i >= 1, j >= 0), MUL(i, j) >= j), [MUL(i, j)]),
                forall([i, j], Imp(And(j >= 1, i >= 0), MUL(i, j) >= i), [MUL(i, j)])],
    }


class Engine:
    def __init__(self, prog, contracts, names=None):
        self.prog = prog
        self.contracts = contracts      # name -> Contract
        self.obs = []
        self.ax = _fp_axioms()          # symbol -> axioms
        self.qs = z3.Solver(); self.qs.set('timeout', 1500); self.qs.set('arith.solver', 2)
        self.qstack = []
        self.nquick = 0
        self.strs = {}
        self.cur = None
        self.collect = 0                # >0: dry run, no obligations
        self.inlined = set()
        self.called = {}
        self.trusted = set()
        self.rename = {}
        self.npaths = 0
        self.fnids = {}
        self.max_paths = 4000

    # ------------------------------------------------------------------ solver helpers
    def _sync(self, pc):
        fs = [x for x in pc if not x.q]
        k = 0
        st = self.qstack
        while k < len(st) and k < len(fs) and st[k] is fs[k]:
            k += 1
        if k < len(st):
            self.qs.pop(len(st) - k)
            del st[k:]
        for x in fs[k:]:
            self.qs.push(); self.qs.add(x.f); st.append(x)

    def quick(self, st, goal):
        """True if goal follows from the quantifier-free facts"""
        if is_true(goal):
            return True
        if is_false(goal) and not st.pc:
            return False
        if has_quant(goal):
            return False
        self._sync(st.pc)
        self.nquick += 1
        self.qs.push()
        self.qs.add(Not(goal))
        r = self.qs.check()
        self.qs.pop()
        return r == z3.unsat

    def feasible(self, st, cond=T):
        if is_false(cond):
            return False
        self._sync(st.pc)
        self.nquick += 1
        self.qs.push()
        self.qs.add(cond)
        r = self.qs.check()
        self.qs.pop()
        return r != z3.unsat

    def oblige(self, st, kind, name, goal, tags=(), assume=True):
        if self.collect:
            if assume:
                st.assume(goal, name)
            return
        if is_true(goal):
            ok = True
        else:
            ok = False
        tags = tuple(tags)
        o = Ob(fn=self.cur, kind=kind, name=name, tags=tags, pc=None, goal=goal, oom=st.oom, trace=None)
        if not ok and z3.is_quantifier(goal) and any(x.q and x.f.eq(goal) for x in st.pc):
            ok = True       # a known fact
        if not ok and self.quick(st, goal):
            ok = True
        if ok:
            o.status = 'ok'; o.backend = 'z3-inproc'; o.goal = None
        else:
            o.pc = list(st.pc); o.trace = list(st.trace)
        self.obs.append(o)
        if assume and not is_false(goal):
            st.assume(goal, name)

    # ------------------------------------------------------------------ objects
    def fresh(self, t, hint, st=None):
        n = '%s!%d' % (hint, uid())
        if t.k == 'int':
            v = z3.Int(n)
            if st is not None:
                lo, hi = lim(t)
                st.assume(And(v >= lo, v <= hi), 'range')
            return v
        if t.k == 'bool':
            return z3.Bool(n)
        if t.k == 'double':
            return z3.Real(n)
        if is_fn_ptr(t):
            v = z3.Int(n)
            if st is not None:
                st.assume(v >= 0)
            return v
        if t.k == 'ptr':
            return Ptr(0, 0, z3.Bool(n), '', 'uninitialised or unspecified pointer %s' % hint)
        if t.k == 'struct':
            return {p: self.fresh(lt, hint + '.' + p, st) for p, lt in leafs(t)}
        raise Unsupported('fresh ' + repr(t))

    def fresh_arr(self, t, hint):
        n = '%s!%d' % (hint, uid())
        if t.k == 'ptr' and not is_fn_ptr(t):
            return PA(None, z3.Array(n + '.o', IS, IS), z3.Array(n + '.f', IS, IS), z3.Array(n + '.n', IS, BS))
        a = z3.Array(n, IS, sort_of(t))
        if t.k == 'int':
            k = z3.Int('k'); lo, hi = lim(t)
            self.ax[n] = [forall([k], And(z3.Select(a, k) >= lo, z3.Select(a, k) <= hi), [z3.Select(a, k)])]
        return a

    def zero(self, t):
        if t.k == 'int' or is_fn_ptr(t):
            return I(0)
        if t.k == 'bool':
            return F
        if t.k == 'double':
            return z3.RealVal(0)
        if t.k == 'ptr':
            return NULL
        if t.k == 'struct':
            return {p: self.zero(lt) for p, lt in leafs(t)}
        raise Unsupported('zero')

    def zero_arr(self, t):
        if t.k == 'ptr' and not is_fn_ptr(t):
            return PA(None, z3.K(IS, I(0)), z3.K(IS, I(0)), z3.K(IS, T))
        return z3.K(IS, self.zero(t))

    def new_obj(self, st, elem, ln, kind, name, init=None, mode=None):
        """init: None unknown, 'zero'"""
        oid = uid()
        ln = I(ln)
        n = num(ln)
        if mode is None:
            mode = 'S' if (n is not None and n <= 3 and (elem.k in ('struct', 'ptr') or kind in ('local', 'global', 'param')) and n >= 1) else 'A'
            if n is not None and n == 1 and kind in ('local', 'global'):
                mode = 'S'
        c = {}
        ls = leafs(elem)
        if mode == 'S':
            for i in range(n):
                for p, lt in ls:
                    c[(i, p)] = self.zero(lt) if init == 'zero' else self.fresh(lt, name + ('.' + p if p else ''), st)
        else:
            for p, lt in ls:
                c[p] = self.zero_arr(lt) if init == 'zero' else self.fresh_arr(lt, name + ('.' + p if p else ''))
        st.heap[oid] = OS(elem, ln, mode, c, kind, name)
        return oid

    def wrote(self, st, what):
        if st.writes is not None:
            st.writes.add(what)

    def os(self, st, oid):
        o = st.heap.get(oid)
        if o is None:
            raise Unsupported('pointer to an object that left its scope')
        return o

    # families
    def fam_get(self, st, key):
        if key not in st.fam:
            n = 'fam_%s' % key
            if key == 'alive':
                st.fam[key] = z3.Array(n + '!0', IS, BS)
            elif key == 'len':
                st.fam[key] = z3.Array(n + '!0', IS, IS)
            else:
                st.fam[key] = z3.Array(n + '!0', IS, z3.ArraySort(IS, self._famsort(key)))
        return st.fam[key]

    def _famsort(self, key):
        return {'b': BS, 'd': RS}.get(key[4:5], IS)

    def fam_key(self, t):
        if t.k == 'int':
            return 'mem_' + ('u' if not t.signed else 's') + str(t.bits)
        if t.k == 'bool':
            return 'mem_b'
        if t.k == 'double':
            return 'mem_d'
        raise Unsupported('family of %r' % t)

    def absorb(self, st, oid, null=F):
        """turn the concrete heap object oid into a family object; returns the id term"""
        o = self.os(st, oid)
        if o.mode != 'A' or o.elem.k not in ('int', 'bool', 'double'):
            raise Unsupported('absorb %s' % o.name)
        f = z3.Int('fid!%d' % uid())
        alive = self.fam_get(st, 'alive'); ln = self.fam_get(st, 'len'); key = self.fam_key(o.elem); mem = self.fam_get(st, key)
        st.assume(And(f > 0, Not(z3.Select(alive, f))), 'fresh-family-id')
        st.fam['alive'] = z3.Store(alive, f, Not(null))
        st.fam['len'] = z3.Store(ln, f, o.len)
        st.fam[key] = z3.Store(mem, f, o.c[''])
        for k in ('alive', 'len', key):
            self.wrote(st, ('fam', k))
        # rename all pointers
        def ren(v):
            if isinstance(v, Ptr) and v.obj == oid and isinstance(v.obj, int):
                return Ptr(f, v.off, v.null, v.path, v.poison)
            return v
        for k, ob in list(st.heap.items()):
            if ob.mode == 'S':
                ch = {kk: vv for kk, vv in ob.c.items() if isinstance(vv, Ptr) and isinstance(vv.obj, int) and vv.obj == oid}
                if ch:
                    nb = ob.copy()
                    for kk, vv in ch.items():
                        nb.c[kk] = ren(vv)
                        self.wrote(st, (k,) + kk)
                    st.heap[k] = nb
            else:
                for kk, vv in ob.c.items():
                    if isinstance(vv, PA) and vv.target == oid:
                        raise Unsupported('absorb target of pointer array')
        ob = o.copy(); ob.alive = False; ob.kind = 'absorbed'
        st.heap[oid] = ob
        st.new = st.new - {oid}
        st.ghosts['absorbed:%d' % oid] = f
        return f

    # ------------------------------------------------------------------ load / store
    def rng(self, st, t, v):
        if t.k == 'int' and num(v) is None:
            lo, hi = lim(t)
            st.assume(And(v >= lo, v <= hi), 'range')
        return v

    def obj_len(self, st, p):
        return self.os(st, p.obj).len if not p.fam() else z3.Select(self.fam_get(st, 'len'), p.obj)

    def obj_alive(self, st, p):
        return B(self.os(st, p.obj).alive) if not p.fam() else z3.Select(self.fam_get(st, 'alive'), p.obj)

    def check_ptr(self, st, p, what, n=1):
        tags = ('C12',)
        if p.poison:
            self.oblige(st, 'mem', 'valid pointer: %s (%s)' % (what, p.poison), F, tags)
            raise Vacuous()
        if isinstance(p.obj, int) and p.obj == 0:
            self.oblige(st, 'mem', 'no null dereference: ' + what, F, tags)
            raise Vacuous()
        if not p.fam():
            o = self.os(st, p.obj)
            if not o.alive:
                self.oblige(st, 'mem', 'no use after free: ' + what, F, tags)
                raise Vacuous()
            if o.elem is None:
                raise Unsupported('untyped block')
            if o.kind == 'opaque':
                self.oblige(st, 'mem', 'opaque data set is not accessed directly: ' + what, F, tags + ('C15',))
                raise Vacuous()
        g = And(Not(p.null), B(True) if not p.fam() else self.obj_alive(st, p), p.off >= 0, add(p.off, n) <= self.obj_len(st, p))
        if num(p.off) is not None and num(self.obj_len(st, p)) is not None and is_false(p.null) and not p.fam():
            g = B(0 <= num(p.off) and num(p.off) + n <= num(self.obj_len(st, p)))
        self.oblige(st, 'mem', 'in bounds: ' + what, g, tags)

    def load(self, st, p, t, what='', check=True):
        if check:
            self.check_ptr(st, p, what)
        if t.k == 'struct':
            return {q: self.load(st, Ptr(p.obj, p.off, p.null, (p.path + '.' + q) if p.path else q), lt, what, False) for q, lt in leafs(t)}
        if t.k == 'array':
            raise Unsupported('array load')
        if p.fam():
            return self.rng(st, t, z3.Select(z3.Select(self.fam_get(st, self.fam_key(t)), p.obj), p.off))
        o = self.os(st, p.obj)
        if o.mode == 'S':
            i = num(p.off)
            if i is None:
                raise Unsupported('symbolic index into small object ' + o.name)
            if (i, p.path) not in o.c:
                raise Unsupported('no leaf %s in %s' % (p.path, o.name))
            return o.c[(i, p.path)]
        if p.path not in o.c:
            raise Unsupported('no leaf %s in %s (cast?)' % (p.path, o.name))
        a = o.c[p.path]
        if isinstance(a, PA):
            return self.pa_load(a, p.off)
        v = z3.Select(a, p.off)
        return self.rng(st, t, v)

    def pa_load(self, a, k):
        if a.target is None:
            return Ptr(0, z3.Select(a.offs, k), z3.Select(a.nulls, k), '', 'unset element of pointer array')
        if a.target == 'fam':
            o = z3.Select(a.objs, k)
            return Ptr(o, z3.Select(a.offs, k), o == 0)
        return Ptr(a.target, z3.Select(a.offs, k), z3.Select(a.nulls, k))

    def pa_store(self, st, a, k, p):
        if p.poison:
            raise Unsupported('poisoned pointer stored in pointer array')
        if isinstance(p.obj, int) and p.obj == 0:
            return PA(a.target, z3.Store(a.objs, k, I(0)), z3.Store(a.offs, k, I(0)), z3.Store(a.nulls, k, T))
        if p.fam():
            if a.target not in (None, 'fam'):
                raise Unsupported('mixed pointer array')
            return PA('fam', z3.Store(a.objs, k, Ite(p.null, I(0), p.obj)), z3.Store(a.offs, k, p.off), z3.Store(a.nulls, k, p.null))
        if a.target is not None and a.target != p.obj:
            raise Unsupported('pointer array with several targets')
        return PA(p.obj, z3.Store(a.objs, k, I(1)), z3.Store(a.offs, k, self.noite(st, p.off)), z3.Store(a.nulls, k, self.noite(st, p.null)))

    def noite(self, st, v):
        """name a conditional value (it could not stand in a pattern)"""
        if z3.is_expr(v) and has_ite(v):
            w = z3.Const('val!%d' % uid(), v.sort())
            st.assume(w == v, 'name')
            return w
        return v

    def store(self, st, p, t, v, what='', check=True):
        if check:
            self.check_ptr(st, p, what)
        if t.k == 'struct':
            for q, lt in leafs(t):
                self.store(st, Ptr(p.obj, p.off, p.null, (p.path + '.' + q) if p.path else q), lt, v[q], what, False)
            return
        if p.fam():
            k = self.fam_key(t); m = self.fam_get(st, k)
            st.fam[k] = z3.Store(m, p.obj, z3.Store(z3.Select(m, p.obj), p.off, v))
            self.wrote(st, ('fam', k))
            return
        o = self.os(st, p.obj).copy()
        if o.ro:
            self.oblige(st, 'mem', 'read-only input not written: ' + what, F, ('C12',))
        if o.mode == 'S':
            i = num(p.off)
            if i is None:
                raise Unsupported('symbolic index into small object ' + o.name)
            if (i, p.path) not in o.c:
                raise Unsupported('store: no leaf %s in %s' % (p.path, o.name))
            o.c[(i, p.path)] = v
            self.wrote(st, (p.obj, i, p.path))
        else:
            if p.path not in o.c:
                raise Unsupported('store: no leaf %s in %s' % (p.path, o.name))
            a = o.c[p.path]
            if isinstance(a, PA):
                if isinstance(v, Ptr) and o.elem.k == 'struct' and o.elem.name == 'iscc_Digraph' and isinstance(v.obj, int) and v.obj != 0 and self.os(st, v.obj).kind == 'heap' and a.target in (None, 'fam'):
                    f = self.absorb(st, v.obj, v.null)
                    v = Ptr(f, v.off, v.null)
                    o = self.os(st, p.obj).copy(); a = o.c[p.path]
                o.c[p.path] = self.pa_store(st, a, self.noite(st, p.off), v)
            else:
                o.c[p.path] = z3.Store(a, self.noite(st, p.off), self.noite(st, v))
            self.wrote(st, (p.obj, p.path))
        st.heap[p.obj] = o

    def set_os(self, st, oid, **kw):
        o = self.os(st, oid).copy()
        for k, v in kw.items():
            setattr(o, k, v)
            self.wrote(st, (oid, '#' + k))
        st.heap[oid] = o

    # ------------------------------------------------------------------ conversions / arithmetic
    def to_bool(self, val):
        t, v = val.t, val.v
        if t.k == 'bool':
            return v
        if t.k == 'int' or is_fn_ptr(t):
            n = num(v)
            return B(n != 0) if n is not None else v != 0
        if t.k == 'double':
            return v != 0
        if t.k == 'ptr':
            return Not(self.isnull(v))
        raise Unsupported('truth of %r' % t)

    def isnull(self, p):
        if p.poison and not (isinstance(p.obj, int) and p.obj == 0 and not is_false(p.null)):
            pass
        if p.fam():
            return Or(p.null, p.obj == 0)
        if p.obj == 0 and not p.poison:
            return T
        return p.null

    def conv(self, st, val, t):
        s, v = val.t, val.v
        if t.k == 'void':
            return Val(t, None)
        if t.k == 'bool':
            return Val(t, self.to_bool(val))
        if t.k == 'int':
            if s.k == 'bool':
                return Val(t, Ite(v, I(1), I(0)))
            if s.k == 'int':
                lo, hi = lim(t); slo, shi = lim(s)
                if lo <= slo and shi <= hi:
                    return Val(t, v)
                n = num(v)
                if n is not None:
                    m = n % (1 << t.bits)
                    if t.signed and m > hi:
                        m -= 1 << t.bits
                    return Val(t, I(m))
                if self.quick(st, And(v >= lo, v <= hi)):
                    return Val(t, v)
                M = 1 << t.bits
                if t.signed:
                    w = (v + (M >> 1)) % M - (M >> 1)
                else:
                    w = v % M
                return Val(t, w)
            if s.k == 'double':
                lo, hi = lim(t)
                if z3.is_rational_value(v) and v.denominator_as_long() == 1:
                    return Val(t, I(v.numerator_as_long()))
                w = D2I(v)
                st.assume(And(w >= lo, w <= hi))
                if z3.is_app(v) and v.decl().eq(FMUL) and z3.is_rational_value(v.arg(0)) and z3.is_app(v.arg(1)) and v.arg(1).decl().eq(FLOG2) and z3.is_app(v.arg(1).arg(0)) and v.arg(1).arg(0).decl().eq(I2D):
                    i = v.arg(1).arg(0).arg(0)      # the logarithm of an integer below 2^64 is at most 64
                    st.assume(Imp(And(i >= 1, i < (1 << 64)), And(w >= 0, w <= 64 * v.arg(0).numerator_as_long())), 'range of the logarithm')
                return Val(t, w)
            if s.k == 'ptr':
                raise Unsupported('pointer to int')
        if t.k == 'double':
            if s.k == 'double':
                return Val(t, v)
            if s.k in ('int', 'bool'):
                iv = self.conv(st, val, INT).v if s.k == 'bool' else v
                n = num(iv)
                return Val(t, z3.RealVal(n) if n is not None else I2D(iv))
        if t.k == 'ptr':
            if is_fn_ptr(t):
                if isinstance(v, Ptr):
                    if v.obj == 0:
                        return Val(t, I(0))
                    raise Unsupported('data to function pointer')
                return Val(t, v)
            if s.k == 'int' and num(v) == 0:
                return Val(t, NULL)
            if s.k == 'ptr':
                if is_fn_ptr(s):
                    raise Unsupported('function to data pointer')
                self.retype(st, v, t.to)
                return Val(t, v)
            if s.k == 'array':
                return Val(t, v)
        if t.k == 'struct' and s.k == 'struct' and s.name == t.name:
            return Val(t, v)
        raise Unsupported('conversion %r -> %r' % (s, t))

    def retype(self, st, p, to):
        if to.k == 'void' or p.poison or p.fam() or p.obj == 0:
            return
        o = self.os(st, p.obj)
        if o.elem is None:
            sz = self.prog.sizeof(to)
            n = self.div_exact(st, o.bytes, sz)
            mode = 'S' if (num(n) is not None and num(n) == 1 and to.k == 'struct') else 'A'
            c = {}
            zero = o.c.get('zero')
            for q, lt in leafs(to):
                if mode == 'S':
                    c[(0, q)] = self.zero(lt) if zero else self.fresh(lt, o.name + '.' + q, st)
                else:
                    c[q] = self.zero_arr(lt) if zero else self.fresh_arr(lt, o.name + ('.' + q if q else ''))
            no = OS(to, n, mode, c, o.kind, o.name)
            st.heap[p.obj] = no

    def div_exact(self, st, b, sz):
        n = num(b)
        if n is not None:
            return I(n // sz)
        if sz == 1:
            return b
        if z3.is_mul(b) and b.num_args() == 2:
            for i in (0, 1):
                m = num(b.arg(i))
                if m is not None and m == sz:
                    return b.arg(1 - i)
                if m is not None and m % sz == 0:
                    return mul(b.arg(1 - i), m // sz)
        q = z3.Int('blk!%d' % uid())
        st.assume(And(q >= 0, q * sz <= b, b < q * sz + sz))
        return q

    def promote(self, t):
        if t.k == 'bool' or (t.k == 'int' and t.bits < 32):
            return INT
        return t

    def common(self, a, b):
        if a.k == 'double' or b.k == 'double':
            return DOUBLE
        a, b = self.promote(a), self.promote(b)
        if a.bits == b.bits:
            return a if not a.signed else b
        return a if a.bits > b.bits else b

    def wrap(self, st, t, v, what, slack=None):
        """v: mathematical result; t: int type"""
        n = num(v)
        lo, hi = lim(t)
        if n is not None:
            if lo <= n <= hi:
                return v
            if t.signed:
                self.oblige(st, 'arith', 'no signed overflow: ' + what, F, ('C12',))
                raise Vacuous()
            return I(n % (1 << t.bits))
        if t.signed:
            self.oblige(st, 'arith', 'no signed overflow: ' + what, And(v >= lo, v <= hi), ('C12',))
            return v
        if self.quick(st, And(v >= lo, v <= hi)):
            return v
        M = 1 << t.bits
        if slack == 'add':
            return Ite(v > hi, v - M, v)
        if slack == 'sub':
            return Ite(v < 0, v + M, v)
        return v % M

    def arith(self, st, op, a, b, what):
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(st, op, a, b)
        if a.t.k == 'ptr' or b.t.k == 'ptr' or a.t.k == 'array' or b.t.k == 'array':
            if op == '+':
                if b.t.k in ('ptr', 'array'):
                    a, b = b, a
                k = self.conv(st, b, self.promote(b.t)).v
                return Val(a.t, a.v.moved(k))
            if op == '-':
                if b.t.k in ('ptr', 'array'):
                    if a.v.fam() != b.v.fam() or (not a.v.fam() and a.v.obj != b.v.obj) or (a.v.fam() and not a.v.obj.eq(b.v.obj)):
                        raise Unsupported('difference of pointers into different objects')
                    return Val(CType('int', bits=64, signed=True), sub(a.v.off, b.v.off))
                k = self.conv(st, b, self.promote(b.t)).v
                return Val(a.t, a.v.moved(sub(I(0), k) if num(k) is None else I(-num(k))))
            raise Unsupported('pointer op ' + op)
        if op in ('<<', '>>'):
            t = self.promote(a.t)
            x = self.conv(st, a, t).v; y = num(b.v)
            if y is None:
                raise Unsupported('symbolic shift')
            if op == '>>':
                n = num(x)
                return Val(t, I(n >> y) if n is not None else x / I(1 << y))
            return Val(t, self.wrap(st, t, mul(x, 1 << y), what))
        t = self.common(a.t, b.t)
        x = self.conv(st, a, t).v; y = self.conv(st, b, t).v
        if t.k == 'double':
            fn = {'+': FADD, '-': FSUB, '*': FMUL, '/': FDIV}[op]
            return Val(t, fn(x, y))
        if op == '+':
            return Val(t, self.wrap(st, t, add(x, y), what, 'add'))
        if op == '-':
            return Val(t, self.wrap(st, t, sub(x, y), what, 'sub'))
        if op == '*':
            m = mul(x, y)
            if num(m) is None and num(x) is None and num(y) is None:
                self.mul_facts(st, x, y, m)
            return Val(t, self.wrap(st, t, m, what))
        if op in ('/', '%'):
            self.oblige(st, 'arith', 'no division by zero: ' + what, Not(eq(y, I(0))), ('C12',))
            if t.signed:
                raise Unsupported('signed division')
            nx, ny = num(x), num(y)
            if nx is not None and ny:
                return Val(t, I(nx // ny if op == '/' else nx % ny))
            if ny is None:
                if op == '%':
                    raise Unsupported('symbolic modulo')
                q = z3.Int('quot!%d' % uid())
                st.assume(And(q >= 0, q <= x, mul(q, y) <= x, x < add(mul(q, y), y)))
                return Val(t, q)
            return Val(t, x / y if op == '/' else x % y)
        if op in ('&', '|', '^'):
            raise Unsupported('bit operation')
        raise Unsupported('op ' + op)

    def mul_facts(self, st, x, y, m):
        # true of every product: sign and magnitude
        def ub(v):
            for b in (15, 16, 24, 31, 32, 40, 48, 63, 64):
                if self.quick(st, And(v >= 0, v < (1 << b))):
                    return (1 << b) - 1
            return None
        a, b = ub(x), ub(y)
        if a is not None and b is not None:
            st.assume(And(m >= 0, m <= a * b), 'product bounds')

    def compare(self, st, op, a, b):
        if a.t.k in ('ptr', 'array') or b.t.k in ('ptr', 'array'):
            if is_fn_ptr(a.t) or is_fn_ptr(b.t):
                x = a.v if not isinstance(a.v, Ptr) else I(0)
                y = b.v if not isinstance(b.v, Ptr) else I(0)
                r = eq(x, y)
                return Val(BOOL, r if op == '==' else Not(r))
            p = a.v if isinstance(a.v, Ptr) else NULL
            q = b.v if isinstance(b.v, Ptr) else NULL
            if op in ('==', '!='):
                if not q.fam() and q.obj == 0 and not q.poison:
                    r = self.isnull(p)
                elif not p.fam() and p.obj == 0 and not p.poison:
                    r = self.isnull(q)
                elif p.poison or q.poison:
                    raise Unsupported('comparison of unspecified pointer')
                elif p.fam() or q.fam():
                    if p.fam() and q.fam():
                        r = And(p.obj == q.obj, p.off == q.off)
                    else:
                        r = And(self.isnull(p), self.isnull(q))
                elif p.obj == q.obj and p.path == q.path:
                    r = Or(And(p.null, q.null), And(Not(p.null), Not(q.null), eq(p.off, q.off)))
                else:
                    r = And(self.isnull(p), self.isnull(q))
                return Val(BOOL, r if op == '==' else Not(r))
            if p.fam() != q.fam() or (not p.fam() and p.obj != q.obj) or (p.fam() and not p.obj.eq(q.obj)):
                raise Unsupported('relational comparison of pointers into different objects')
            x, y = p.off, q.off
        else:
            t = self.common(a.t, b.t)
            x = self.conv(st, a, t).v; y = self.conv(st, b, t).v
        if op == '==':
            r = eq(x, y)
        elif op == '!=':
            r = Not(eq(x, y))
        else:
            nx, ny = (num(x), num(y)) if x.sort() == IS else (None, None)
            if nx is not None and ny is not None:
                r = B({'<': nx < ny, '>': nx > ny, '<=': nx <= ny, '>=': nx >= ny}[op])
            else:
                r = {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]
        return Val(BOOL, r)

    # ------------------------------------------------------------------ expressions
    def lookup(self, st, name):
        f = st.frames[-1]
        if name in f:
            return f[name]
        if name in st.frames[0]:
            return st.frames[0][name]
        return None

    def text(self, e):
        try:
            from pycparser import c_generator
            return c_generator.CGenerator().visit(e)[:80]
        except Exception:
            return '?'

    def lval(self, e, st):
        """-> list of (Ptr, ctype, st)"""
        if isinstance(e, c_ast.ID):
            oid = self.lookup(st, e.name)
            if oid is None:
                raise Unsupported('unknown identifier ' + e.name)
            return [(Ptr(oid, 0), self.vt(st, oid), st)]
        if isinstance(e, c_ast.UnaryOp) and e.op == '*':
            r = []
            for v, s in self.ev(e.expr, st):
                if v.t.k not in ('ptr', 'array'):
                    raise Unsupported('deref non-pointer')
                r.append((v.v, v.t.to, s))
            return r
        if isinstance(e, c_ast.ArrayRef):
            r = []
            for v, s in self.ev(e.name, st):
                for k, s2 in self.ev(e.subscript, s):
                    if v.t.k not in ('ptr', 'array'):
                        raise Unsupported('index non-pointer')
                    kk = self.conv(s2, k, self.promote(k.t)).v
                    r.append((v.v.moved(kk), v.t.to, s2))
            return r
        if isinstance(e, c_ast.StructRef):
            r = []
            if e.type == '->':
                bases = [(v.v, v.t.to, s) for v, s in self.ev(e.name, st)]
            else:
                try:
                    bases = self.lval(e.name, st)
                except Unsupported:
                    raise
            for p, t, s in bases:
                ft = None
                if t.k != 'struct' or t.fields is None:
                    raise Unsupported('field of %r' % t)
                for n, x in t.fields:
                    if n == e.field.name:
                        ft = x
                if ft is None:
                    raise Unsupported('no field ' + e.field.name)
                r.append((Ptr(p.obj, p.off, p.null, (p.path + '.' + e.field.name) if p.path else e.field.name, p.poison), ft, s))
            return r
        raise Unsupported('lvalue ' + type(e).__name__)

    def vt(self, st, oid):
        o = self.os(st, oid)
        if o.name in ('',):
            pass
        t = o.elem
        if o.kind == 'localarr':
            return CType('array', to=t)
        return t

    def rd(self, p, t, s, what):
        if t.k == 'array':
            return (Val(ptr(t.to), p), s)
        if t.k == 'func':
            raise Unsupported('func lvalue')
        return (Val(t, self.load(s, p, t, what)), s)

    def ev(self, e, st):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(e).__name__)
        out = []
        try:
            out = m(e, st)
        except Vacuous:
            return []
        return out

    def ev_Constant(self, e, st):
        v = e.value
        if e.type == 'string':
            return [(Val(ptr(CHAR), Ptr(self.strlit(st, v), 0)), st)]
        if e.type in ('double', 'float', 'long double'):
            return [(Val(DOUBLE, z3.RealVal(v.rstrip('fFlL'))), st)]
        if e.type == 'char':
            return [(Val(INT, I(ord(eval(v)))), st)]
        suf = re.search('[uUlL]*$', v).group(0).lower()
        n = int(v[:len(v) - len(suf)] if suf else v, 0) if not re.match(r'^0[0-7]+', v) else int(v.rstrip('uUlL'), 8)
        u = 'u' in suf; l = 'l' in suf
        if u:
            t = ULONG if (l or n > 0xffffffff) else UINT
        else:
            t = CType('int', bits=64, signed=True) if (l or n > 0x7fffffff) else INT
            if n > 0x7fffffffffffffff:
                t = ULONG
        return [(Val(t, I(n)), st)]

    def strlit(self, st, v):
        if v not in self.strs:
            self.strs[v] = uid()
        oid = self.strs[v]
        if oid not in st.heap:
            o = OS(CHAR, I(len(eval(v)) + 1 if True else 1), 'A', {'': z3.Array('str!%d' % oid, IS, IS)}, 'str', v)
            o.ro = True
            st.heap[oid] = o
        return oid

    def fnid(self, name):
        if name not in self.fnids:
            self.fnids[name] = 1000 + len(self.fnids)
        return self.fnids[name]

    def ev_ID(self, e, st):
        n = e.name
        oid = self.lookup(st, n)
        if oid is None:
            if n in self.prog.enum_consts:
                return [(Val(INT, I(self.prog.enum_consts[n])), st)]
            if n in self.prog.funcs or n in self.prog.protos:
                return [(Val(ptr(self.prog.protos[n]), I(self.fnid(n))), st)]
            g = self.prog.globals.get(n)
            if g is not None:
                self.mk_global(st, n)
                oid = self.lookup(st, n)
            else:
                raise Unsupported('unknown identifier ' + n)
        return [self.rd(Ptr(oid, 0), self.vt(st, oid), st, n)]

    def mk_global(self, st, n):
        t, init, const, path = self.prog.globals[n]
        oid = self.new_obj(st, t, 1, 'global', n)
        st.frames[0][n] = oid
        if const and init is not None:
            vs = self.init_val(init, t, st)
            self.store(st, Ptr(oid, 0), t, vs[0][0], n, False)
            st.heap[oid].ro = True
        return oid

    def ev_StructRef(self, e, st):
        if e.type == '.' and not isinstance(e.name, (c_ast.ID, c_ast.StructRef, c_ast.ArrayRef, c_ast.UnaryOp)):
            r = []
            for v, s in self.ev(e.name, st):
                d = v.v; f = e.field.name
                ft = dict(v.t.fields)[f]
                if ft.k == 'struct':
                    r.append((Val(ft, {k[len(f) + 1:]: x for k, x in d.items() if k.startswith(f + '.')}), s))
                else:
                    r.append((Val(ft, d[f]), s))
            return r
        self.globalize(e, st)
        return [self.rd(p, t, s, self.text(e)) for p, t, s in self.lval(e, st)]

    def globalize(self, e, st):
        """make sure that a global at the base of an lvalue exists"""
        b = e
        while not isinstance(b, c_ast.ID):
            if isinstance(b, (c_ast.StructRef, c_ast.ArrayRef)):
                b = b.name
            elif isinstance(b, c_ast.UnaryOp):
                b = b.expr
            else:
                return
        if self.lookup(st, b.name) is None and b.name in self.prog.globals:
            self.mk_global(st, b.name)

    def ev_ArrayRef(self, e, st):
        self.globalize(e, st)
        r = []
        for p, t, s in self.lval(e, st):
            try:
                r.append(self.rd(p, t, s, self.text(e)))
            except Vacuous:
                pass
        return r

    def ev_Cast(self, e, st):
        t = self.prog.ctype(e.to_type.type)
        return [(self.conv(s, v, t), s) for v, s in self.ev(e.expr, st)]

    def ev_CompoundLiteral(self, e, st):
        t = self.prog.ctype(e.type.type)
        return [(Val(t, v), s) for v, s in self.init_val(e.init, t, st)]

    def init_val(self, init, t, st):
        """-> list of (payload, st)"""
        if isinstance(init, c_ast.InitList):
            if t.k == 'array':
                raise Unsupported('array initializer')
            if t.k != 'struct':
                return self.init_val(init.exprs[0], t, st)
            names = [n for n, _ in t.fields]; ftypes = dict(t.fields)
            res = [(dict(self.zero(t)), st)]
            pos = 0
            for x in init.exprs:
                if isinstance(x, c_ast.NamedInitializer):
                    f = x.name[0].name; xe = x.expr; pos = names.index(f) + 1
                else:
                    f = names[pos]; xe = x; pos += 1
                nr = []
                for d, s in res:
                    for v, s2 in self.init_val(xe, ftypes[f], s):
                        d2 = dict(d)
                        if ftypes[f].k == 'struct':
                            for q, y in v.items():
                                d2[f + '.' + q] = y
                        else:
                            d2[f] = v
                        nr.append((d2, s2))
                res = nr
            return res
        return [(self.conv(s, v, t).v, s) for v, s in self.ev(init, st)]

    def ev_UnaryOp(self, e, st):
        op = e.op
        if op == 'sizeof':
            return self.ev_sizeof(e, st)
        if op == '&':
            self.globalize(e.expr, st)
            if isinstance(e.expr, c_ast.UnaryOp) and e.expr.op == '*':
                return self.ev(e.expr.expr, st)
            if isinstance(e.expr, c_ast.ID) and self.lookup(st, e.expr.name) is None:
                return self.ev(e.expr, st)
            return [(Val(ptr(t.to if t.k == 'array' else t), p), s) for p, t, s in self.lval(e.expr, st)]
        if op == '*':
            r = []
            for p, t, s in self.lval(e, st):
                if t.k == 'func':
                    r += self.ev(e.expr, st)
                    continue
                try:
                    r.append(self.rd(p, t, s, self.text(e)))
                except Vacuous:
                    pass
            return r
        if op in ('++', '--', 'p++', 'p--'):
            r = []
            self.globalize(e.expr, st)
            for p, t, s in self.lval(e.expr, st):
                old = Val(t, self.load(s, p, t, self.text(e)))
                one = Val(INT, I(1))
                new = self.conv(s, self.arith(s, '+' if '+' in op else '-', old, one, self.text(e)), t)
                self.store(s, p, t, new.v, self.text(e), False)
                r.append((old if op.startswith('p') else new, s))
            return r
        if op == '!':
            return [(Val(BOOL, Not(self.to_bool(v))), s) for v, s in self.ev(e.expr, st)]
        if op == '-':
            r = []
            for v, s in self.ev(e.expr, st):
                if v.t.k == 'double':
                    if z3.is_rational_value(v.v):
                        r.append((Val(DOUBLE, z3.simplify(-v.v)), s))
                    else:
                        r.append((Val(DOUBLE, -v.v), s))
                else:
                    r.append((self.arith(s, '-', Val(INT, I(0)), v, self.text(e)), s))
            return r
        if op == '+':
            return self.ev(e.expr, st)
        raise Unsupported('unary ' + op)

    def ev_sizeof(self, e, st):
        if isinstance(e.expr, c_ast.Typename):
            n = e.expr.type
            if isinstance(n, c_ast.ArrayDecl):
                et = self.prog.ctype(n.type); sz = self.prog.sizeof(et)
                r = []
                for v, s in self.ev(n.dim, st):
                    k = self.conv(s, v, ULONG).v
                    r.append((Val(ULONG, self.wrap(s, ULONG, mul(k, sz), 'sizeof')), s))
                return r
            return [(Val(ULONG, I(self.prog.sizeof(self.prog.ctype(n)))), st)]
        t = self.static_type(e.expr, st)
        return [(Val(ULONG, I(self.prog.sizeof(t))), st)]

    def static_type(self, e, st):
        c = self.collect; self.collect += 1
        try:
            s = st.copy()
            if isinstance(e, (c_ast.ID, c_ast.UnaryOp, c_ast.ArrayRef, c_ast.StructRef)):
                self.globalize(e, s)
                if isinstance(e, c_ast.UnaryOp) and e.op != '*':
                    return self.ev(e, s)[0][0].t
                return self.lval(e, s)[0][1]
            return self.ev(e, s)[0][0].t
        finally:
            self.collect = c

    def ev_BinaryOp(self, e, st):
        if e.op in ('&&', '||'):
            return self.ev_logic(e, st)
        r = []
        for a, s in self.ev(e.left, st):
            for b, s2 in self.ev(e.right, s):
                try:
                    r.append((self.arith(s2, e.op, a, b, self.text(e)), s2))
                except Vacuous:
                    pass
        return r

    def ev_logic(self, e, st):
        r = []
        for a, s in self.ev(e.left, st):
            ca = self.to_bool(a)
            g = ca if e.op == '&&' else Not(ca)     # right side evaluated only under g
            short = F if e.op == '&&' else T
            if is_false(g):
                r.append((Val(BOOL, short), s)); continue
            if is_true(g):
                r += [(Val(BOOL, self.to_bool(b)), s2) for b, s2 in self.ev(e.right, s)]
                continue
            s1 = s.copy(); s1.assume(g); base = len(s1.pc)
            if not self.feasible(s1):
                r.append((Val(BOOL, short), s)); continue
            rs = self.ev(e.right, s1)
            if len(rs) == 1 and self.same_store(s, rs[0][1]):
                b, s2 = rs[0]
                for f in s2.pc[base:]:
                    s.assume(Imp(g, f.f), f.n)
                s.heap = s2.heap; s.frames = s2.frames
                cb = self.to_bool(b)
                r.append((Val(BOOL, And(ca, cb) if e.op == '&&' else Or(ca, cb)), s))
            else:
                s0 = s.copy(); s0.assume(Not(g))
                if self.feasible(s0):
                    r.append((Val(BOOL, short), s0))
                for b, s2 in rs:
                    r.append((Val(BOOL, self.to_bool(b)), s2))
        return r

    def same_store(self, a, b):
        if a.oom != b.oom or a.events != b.events or a.ghosts != b.ghosts:
            return False
        for k, v in b.heap.items():
            w = a.heap.get(k)
            if w is None and v.kind in ('global', 'str'):
                continue
            if w is not v:
                return False
        if set(a.fam) - set(b.fam):
            return False
        for k, v in b.fam.items():
            w = a.fam.get(k)
            if w is not None and w is not v and not w.eq(v):
                return False
        return True

    def ev_TernaryOp(self, e, st):
        r = []
        for c, s in self.ev(e.cond, st):
            cc = self.to_bool(c)
            if not is_true(cc) and not is_false(cc):
                sa = s.copy(); sa.assume(cc); sb = s.copy(); sb.assume(Not(cc))
                ba, bb = len(sa.pc), len(sb.pc)
                fa, fb = self.feasible(sa), self.feasible(sb)
                ra = self.ev(e.iftrue, sa) if fa else []
                rb = self.ev(e.iffalse, sb) if fb else []
                if len(ra) == 1 and len(rb) == 1 and ra[0][0].t.k in ('int', 'bool', 'double') and rb[0][0].t.k in ('int', 'bool', 'double') and self.same_store(s, ra[0][1]) and self.same_store(s, rb[0][1]):
                    (x, s1), (y, s2) = ra[0], rb[0]
                    for f in s1.pc[ba:]:
                        s.assume(Imp(cc, f.f))
                    for f in s2.pc[bb:]:
                        s.assume(Imp(Not(cc), f.f))
                    t = self.common(x.t, y.t)
                    r.append((Val(t, Ite(cc, self.conv(s, x, t).v, self.conv(s, y, t).v)), s))
                else:
                    r += ra + rb
            else:
                r += self.ev(e.iftrue if is_true(cc) else e.iffalse, s)
        return r

    def ev_Assignment(self, e, st):
        r = []
        self.globalize(e.lvalue, st)
        if e.op == '=':
            for v, s in self.ev(e.rvalue, st):
                for p, t, s2 in self.lval(e.lvalue, s):
                    if p.poison or not isinstance(p.obj, int):
                        pass
                    v2 = self.conv(s2, v, t)
                    try:
                        self.store(s2, p, t, v2.v, self.text(e.lvalue))
                    except Vacuous:
                        continue
                    r.append((v2, s2))
            return r
        op = e.op[:-1]
        for v, s in self.ev(e.rvalue, st):
            for p, t, s2 in self.lval(e.lvalue, s):
                try:
                    old = Val(t, self.load(s2, p, t, self.text(e.lvalue)))
                    new = self.conv(s2, self.arith(s2, op, old, v, self.text(e)), t)
                    self.store(s2, p, t, new.v, self.text(e.lvalue), False)
                except Vacuous:
                    continue
                r.append((new, s2))
        return r

    def ev_ExprList(self, e, st):
        res = [(Val(VOID, None), st)]
        for x in e.exprs:
            res = [y for _, s in res for y in self.ev(x, s)]
        return res

    # ------------------------------------------------------------------ calls
    def ev_FuncCall(self, e, st):
        args = e.args.exprs if e.args else []
        if isinstance(e.name, c_ast.ID) and self.lookup(st, e.name.name) is None and e.name.name not in self.prog.globals:
            name = e.name.name
            if name == '__vp_assert':
                return [(Val(VOID, None), st)]
            sts = [([], st)]
            for a in args:
                sts = [(vs + [v], s2) for vs, s in sts for v, s2 in self.ev(a, s)]
            r = []
            for vs, s in sts:
                try:
                    r += self.call(name, vs, s, e)
                except Vacuous:
                    pass
            return r
        # indirect
        r = []
        for fv, s0 in self.ev(e.name, st):
            sts = [([], s0)]
            for a in args:
                sts = [(vs + [v], s2) for vs, s in sts for v, s2 in self.ev(a, s)]
            for vs, s in sts:
                ft = fv.t.to
                conv = [self.conv(s, v, t) for v, t in zip(vs, ft.params)]
                s.events = s.events + ((fv.v, conv),)
                self.oblige(s, 'mem', 'function pointer is set', fv.v != 0 if num(fv.v) is None else B(num(fv.v) != 0), ('C12', 'C15'))
                rv = Val(ft.ret, None) if ft.ret.k == 'void' else Val(ft.ret, self.fresh(ft.ret, 'ext', s))
                s.ghosts['extret'] = rv.v
                r.append((rv, s))
        return r

    def call(self, name, vs, st, node):
        b = getattr(self, 'm_' + name, None)
        if b is not None:
            self.trusted.add(name)
            return b(vs, st, node)
        c = self.contracts.get(name)
        proto = self.prog.protos.get(name)
        if proto is None:
            raise Unsupported('call of unknown function ' + name)
        if len(vs) != len(proto.params):
            raise Unsupported('argument count of ' + name)
        vs = [self.conv(st, v, t) for v, t in zip(vs, proto.params)]
        if c is not None and not c.inline:
            self.called[name] = self.called.get(name, 0) + 1
            return c.apply(self, name, vs, st)
        if name not in self.prog.funcs:
            raise Unsupported('no body for ' + name)
        self.inlined.add(name)
        return self.inline(name, vs, st, node)

    def params(self, name):
        fd = self.prog.funcs[name].decl.type
        r = []
        if fd.args:
            for p in fd.args.params:
                if isinstance(p, c_ast.EllipsisParam) or p.name is None:
                    continue
                r.append((p.name, self.prog.decay(self.prog.ctype(p.type))))
        return r

    def inline(self, name, vs, st, node):
        if len(st.frames) > 12:
            raise Unsupported('recursion')
        fr = {}
        for (pn, pt), v in zip(self.params(name), vs):
            oid = self.new_obj(st, pt, 1, 'local', pn)
            self.store(st, Ptr(oid, 0), pt, v.v, pn, False)
            fr[pn] = oid
        st.frames.append(fr)
        st.note('enter ' + name)
        self.callpath.append(id(node))
        outs = self.ex(self.prog.funcs[name].body, st)
        self.callpath.pop()
        r = []
        rt = self.prog.protos[name].ret
        for k, s, v in outs:
            s.frames.pop()
            s.note('leave ' + name)
            if k == 'return':
                r.append((v if v is not None else Val(VOID, None), s))
            elif k == 'normal':
                if rt.k != 'void':
                    raise Unsupported('missing return in ' + name)
                r.append((Val(VOID, None), s))
            else:
                raise Unsupported('break out of function')
        return r

    # ---- trusted models of libc
    def alloc(self, st, nbytes, zero, what, fail=True):
        r = []
        n = num(nbytes)
        if fail:
            s0 = st.copy(); s0.oom = True; s0.note('allocation fails: ' + what)
            r.append((Val(ptr(VOID), NULL), s0))
        s1 = st
        s1.assume(And(nbytes >= 0, nbytes <= (1 << 63) - 1), 'malloc-limit')
        oid = uid()
        o = OS(None, I(0), 'A', {'zero': True} if zero else {}, 'heap', 'blk%d' % oid, bytes=nbytes)
        s1.heap[oid] = o
        s1.new = s1.new | {oid}
        if self.feasible(s1):
            r.append((Val(ptr(VOID), Ptr(oid, 0)), s1))
        return r

    def m_malloc(self, vs, st, node):
        return self.alloc(st, self.conv(st, vs[0], ULONG).v, False, self.text(node))

    def m_calloc(self, vs, st, node):
        a = self.conv(st, vs[0], ULONG).v; b = self.conv(st, vs[1], ULONG).v
        return self.alloc(st, mul(a, b), True, self.text(node))

    def m_realloc(self, vs, st, node):
        p = vs[0].v; nb = self.conv(st, vs[1], ULONG).v
        if p.poison:
            self.oblige(st, 'mem', 'realloc of valid pointer: ' + self.text(node), F, ('C12', 'C11'))
            raise Vacuous()
        nu = self.isnull(p)
        r = []
        if not is_false(nu):
            s = st.copy(); s.assume(nu)
            if self.feasible(s):
                r += self.m_malloc([vs[1]], s, node)
            st.assume(Not(nu))
            if not self.feasible(st):
                return r
        if p.fam():
            raise Unsupported('realloc of family object')
        o = self.os(st, p.obj)
        self.oblige(st, 'mem', 'realloc of live heap block: ' + self.text(node), And(B(o.alive and o.kind in ('heap', 'pheap')), eq(p.off, I(0))), ('C12', 'C11'))
        s0 = st.copy(); s0.oom = True; s0.note('realloc fails: ' + self.text(node))
        r.append((Val(ptr(VOID), NULL), s0))
        st.assume(And(nb >= 0, nb <= (1 << 63) - 1))
        if o.elem is None:
            raise Unsupported('realloc of untyped block')
        nl = self.div_exact(st, nb, self.prog.sizeof(o.elem))
        no = o.copy()
        for q, lt in leafs(o.elem):
            a = o.c[q]
            if isinstance(a, PA):
                no.c[q] = a          # the pointers themselves are kept
                continue
            b = self.fresh_arr(lt, o.name + '.re')
            k = z3.Int('k')
            st.assume(forall([k], Imp(And(k >= 0, k < o.len, k < nl), z3.Select(b, k) == z3.Select(a, k)), [z3.Select(b, k)]), 'realloc')
            no.c[q] = b
            self.wrote(st, (p.obj, q))
        no.len = nl
        self.wrote(st, (p.obj, '#len'))
        st.heap[p.obj] = no
        # all other pointers to the block become stale
        for k, ob in list(st.heap.items()):
            if ob.mode == 'A' and any(isinstance(vv, PA) and vv.target == p.obj for vv in ob.c.values()):
                raise Unsupported('realloc of a block that a pointer array points into')
            if ob.mode == 'S':
                ch = [kk for kk, vv in ob.c.items() if isinstance(vv, Ptr) and not vv.fam() and vv.obj == p.obj]
                if ch:
                    nb2 = ob.copy()
                    for kk in ch:
                        q = nb2.c[kk]
                        nb2.c[kk] = Ptr(q.obj, q.off, q.null, q.path, 'stale after realloc')
                    st.heap[k] = nb2
        r.append((Val(ptr(VOID), Ptr(p.obj, 0)), st))
        return r

    def m_free(self, vs, st, node):
        p = vs[0].v
        if p.poison:
            self.oblige(st, 'mem', 'free of valid pointer: %s (%s)' % (self.text(node), p.poison), F, ('C12', 'C11'))
            raise Vacuous()
        if isinstance(p.obj, int) and p.obj == 0:
            return [(Val(VOID, None), st)]
        if p.fam():
            al = self.fam_get(st, 'alive')
            self.oblige(st, 'mem', 'free of live heap block: ' + self.text(node), Or(self.isnull(p), And(z3.Select(al, p.obj), eq(p.off, I(0)))), ('C12', 'C11'))
            st.fam['alive'] = z3.Store(al, p.obj, F)
            self.wrote(st, ('fam', 'alive'))
            return [(Val(VOID, None), st)]
        o = self.os(st, p.obj)
        self.oblige(st, 'mem', 'free of live heap block: ' + self.text(node), Or(p.null, And(B(o.alive and o.kind in ('heap', 'pheap')), eq(p.off, I(0)))), ('C12', 'C11'))
        self.set_os(st, p.obj, alive=False)
        st.new = st.new - {p.obj}
        return [(Val(VOID, None), st)]

    def m_memcpy(self, vs, st, node):
        d, s = vs[0].v, vs[1].v
        nb = self.conv(st, vs[2], ULONG).v
        what = self.text(node)
        for p in (d, s):
            if p.poison or (isinstance(p.obj, int) and p.obj == 0):
                self.oblige(st, 'mem', 'memcpy pointers valid: ' + what, F, ('C12',))
                raise Vacuous()
            if p.fam():
                raise Unsupported('memcpy of family')
        od, os_ = self.os(st, d.obj), self.os(st, s.obj)
        if od.elem is None or os_.elem is None or od.elem.k == 'struct' or not od.elem.same(os_.elem) or od.mode != 'A' or os_.mode != 'A':
            raise Unsupported('memcpy between different element types')
        n = self.div_exact(st, nb, self.prog.sizeof(od.elem))
        g = And(Not(d.null), Not(s.null), B(od.alive), B(os_.alive), d.off >= 0, add(d.off, n) <= od.len, s.off >= 0, add(s.off, n) <= os_.len)
        self.oblige(st, 'mem', 'memcpy in bounds: ' + what, g, ('C12',))
        self.oblige(st, 'mem', 'memcpy blocks do not overlap: ' + what, B(d.obj != s.obj), ('C12',))
        a = os_.c['']; no = od.copy()
        b = self.fresh_arr(od.elem, od.name + '.cpy')
        k = z3.Int('k')
        if isinstance(a, PA):
            raise Unsupported('memcpy of pointers')
        st.assume(forall([k], z3.Select(b, k) == Ite(And(k >= d.off, k < add(d.off, n)), z3.Select(a, sub(add(k, s.off), d.off)), z3.Select(od.c[''], k)), [z3.Select(b, k)]), 'memcpy')
        no.c[''] = b
        st.heap[d.obj] = no
        self.wrote(st, (d.obj, ''))
        return [(vs[0], st)]

    def m_sqrt(self, vs, st, node):
        v = self.conv(st, vs[0], DOUBLE).v
        return [(Val(DOUBLE, FSQRT(v)), st)]

    def m_log2(self, vs, st, node):
        v = self.conv(st, vs[0], DOUBLE).v
        return [(Val(DOUBLE, FLOG2(v)), st)]

    def m_snprintf(self, vs, st, node):
        p = vs[0].v; n = self.conv(st, vs[1], ULONG).v
        self.check_ptr(st, p, 'snprintf buffer', n=n)
        o = self.os(st, p.obj).copy()
        a = self.fresh_arr(CHAR, 'buf')
        o.c[''] = a
        st.heap[p.obj] = o
        self.wrote(st, (p.obj, ''))
        k = z3.Int('term!%d' % uid())
        r = self.fresh(INT, 'snprintf', st)
        st.assume(Imp(n >= 1, And(k >= 0, k < n, z3.Select(a, add(p.off, k)) == 0)), 'snprintf terminates the string')
        st.events = st.events + (('snprintf', vs),)
        for v in vs[2:]:
            if isinstance(v.v, Ptr):
                q = v.v
                if q.poison or not is_false(self.isnull(q)):
                    self.oblige(st, 'mem', 'snprintf string argument is valid', F if q.poison else Not(self.isnull(q)), ('C12', 'C16'))
        return [(Val(INT, r), st)]

    def m_qsort(self, vs, st, node):
        p = vs[0].v; n = self.conv(st, vs[1], ULONG).v
        self.check_ptr(st, p, 'qsort array', n=n) if num(n) != 0 else None
        cmp = self.text(node.args.exprs[3]); key = QSORT_KEY.get(cmp); o = self.os(st, p.obj)
        if key is None or cmp not in self.contracts or p.fam() or p.path or o.mode != 'A' or key not in o.c:
            raise Unsupported('qsort')
        self.oblige(st, 'mem', 'qsort: size of the elements', eq(self.conv(st, vs[2], ULONG).v, I(self.prog.sizeof(o.elem))), ('C12',))
        lo, hi = p.off, add(p.off, n); k, j = z3.Int('k'), z3.Int('j'); no = o.copy(); u = uid()
        PI, IPI = z3.Array('qsort.from!%d' % u, IS, IS), z3.Array('qsort.to!%d' % u, IS, IS)
        inr = lambda x: And(lo <= x, x < hi)
        st.assume(And(forall([k], Imp(inr(k), And(inr(PI[k]), IPI[PI[k]] == k)), [PI[k]]), forall([k], Imp(inr(k), And(inr(IPI[k]), PI[IPI[k]] == k)), [IPI[k]])), 'qsort permutes')
        for q, t in leafs(o.elem):
            a = o.c[q]
            if isinstance(a, PA):
                w = self.fresh_arr(t, o.name + '.sorted'); no.c[q] = PA(a.target, w.objs, w.offs, w.nulls)
            else:
                b = self.fresh_arr(t, o.name + '.sorted'); no.c[q] = b
                st.assume(forall([k], z3.Select(b, k) == Ite(inr(k), z3.Select(a, PI[k]), z3.Select(a, k)), [z3.Select(b, k)]), 'qsort moves')
            self.wrote(st, (p.obj, q))
        b = no.c[key]
        st.assume(forall([k, j], Imp(And(lo <= k, k <= j, j < hi), z3.Select(b, k) <= z3.Select(b, j)), [(z3.Select(b, k), z3.Select(b, j))]), 'qsort orders')
        st.heap[p.obj] = no
        st.ghosts = dict(st.ghosts); st.ghosts['qsort.from'] = PI; st.ghosts['qsort.to'] = IPI
        return [(Val(VOID, None), st)]

    # ------------------------------------------------------------------ statements
    def ex(self, s, st):
        """-> list of (kind, state, val)"""
        if s is None:
            return [('normal', st, None)]
        m = getattr(self, 'ex_' + type(s).__name__, None)
        if m is not None:
            return m(s, st)
        try:
            return [('normal', s2, None) for _, s2 in self.ev(s, st)]
        except Vacuous:
            return []

    def ex_EmptyStatement(self, s, st):
        return [('normal', st, None)]

    def seq(self, items, st):
        cur = [st]; outs = []
        for it in items:
            nxt = []
            for x in cur:
                for o in self.ex(it, x):
                    if o[0] == 'normal':
                        nxt.append(o[1])
                    else:
                        outs.append(o)
            cur = nxt
            if len(cur) + len(outs) > self.max_paths:
                raise Unsupported('too many paths')
            if not cur:
                break
        return outs + [('normal', x, None) for x in cur]

    def ex_Compound(self, s, st):
        saved = dict(st.frames[-1])
        outs = self.seq(s.block_items or [], st)
        for o in outs:
            self.leave(o[1], saved)
        return outs

    def leave(self, st, saved):
        st.frames[-1] = dict(saved)

    def ex_DeclList(self, s, st):
        return self.seq(s.decls, st)

    def ex_Decl(self, s, st):
        if isinstance(s.type, c_ast.FuncDecl) or s.name is None:
            return [('normal', st, None)]
        if 'static' in (s.storage or []):
            raise Unsupported('static local')
        t = self.prog.ctype(s.type)
        if t.k == 'array':
            r = []
            for v, x in self.ev(t.n, st):
                n = self.conv(x, v, ULONG).v
                k = num(n)
                mode = 'S' if (k is not None and k <= 3 and t.to.k == 'struct') else 'A'
                oid = self.new_obj(x, t.to, n, 'localarr', s.name, mode=mode)
                if s.init is not None:
                    if not isinstance(s.init, c_ast.InitList) or (mode != 'S' and (t.to.k not in ('int', 'bool', 'double') or k != len(s.init.exprs))):
                        raise Unsupported('array initialiser')
                    for i, xe in enumerate(s.init.exprs):
                        vs = self.init_val(xe, t.to, x)
                        if len(vs) != 1:
                            raise Unsupported('forking array initialiser')
                        self.store(x, Ptr(oid, i), t.to, vs[0][0], s.name, False)
                x.frames[-1][s.name] = oid
                r.append(('normal', x, None))
            return r
        if s.init is None:
            oid = self.new_obj(st, t, 1, 'local', s.name)
            st.frames[-1][s.name] = oid
            return [('normal', st, None)]
        r = []
        try:
            vals = self.init_val(s.init, t, st)
        except Vacuous:
            return []
        for v, x in vals:
            oid = self.new_obj(x, t, 1, 'local', s.name)
            self.store(x, Ptr(oid, 0), t, v, s.name, False)
            x.frames[-1][s.name] = oid
            r.append(('normal', x, None))
        return r

    def branch(self, e, st):
        """-> (list of true states, list of false states)"""
        ts, fs = [], []
        if e is None:
            return [st], []
        for v, s in self.ev(e, st):
            c = self.to_bool(v)
            if is_true(c):
                ts.append(s)
            elif is_false(c):
                fs.append(s)
            else:
                s2 = s.copy()
                s.assume(c); s2.assume(Not(c))
                txt = self.text(e)
                if self.feasible(s):
                    s.note('if (%s) true' % txt); ts.append(s)
                if self.feasible(s2):
                    s2.note('if (%s) false' % txt); fs.append(s2)
        return ts, fs

    def ex_If(self, s, st):
        ts, fs = self.branch(s.cond, st)
        outs = []
        for x in ts:
            outs += self.ex(s.iftrue, x)
        for x in fs:
            outs += self.ex(s.iffalse, x) if s.iffalse is not None else [('normal', x, None)]
        return outs

    def ex_Return(self, s, st):
        rt = self.rettypes()
        if s.expr is None:
            return [('return', st, None)]
        r = []
        for v, x in self.ev(s.expr, st):
            r.append(('return', x, self.conv(x, v, rt) if rt.k != 'void' else v))
        return r

    def rettypes(self):
        # innermost inlined function
        return self.retstack()

    def retstack(self):
        return self._rt()

    def _rt(self):
        # determined from the current call path
        return self.curret[-1] if self.curret else VOID

    def ex_Break(self, s, st):
        return [('break', st, None)]

    def ex_Continue(self, s, st):
        return [('continue', st, None)]

    def ex_Switch(self, s, st):
        outs = []
        items = s.stmt.block_items
        for v, x in self.ev(s.cond, st):
            rest = x
            done = False
            default = None
            for i, it in enumerate(items):
                if isinstance(it, c_ast.Default):
                    default = i; continue
                if not isinstance(it, c_ast.Case):
                    raise Unsupported('switch layout')
                cv, _ = self.ev(it.expr, rest.copy())[0]
                c = self.compare(rest, '==', v, cv).v
                if is_false(c):
                    continue
                s1 = rest.copy(); s1.assume(c)
                if self.feasible(s1):
                    s1.note('case ' + self.text(it.expr))
                    outs += self.run_cases(items, i, s1)
                if is_true(c):
                    done = True; break
                rest.assume(Not(c))
            if not done and self.feasible(rest):
                if default is not None:
                    outs += self.run_cases(items, default, rest)
                else:
                    outs.append(('normal', rest, None))
        return [('normal', a, c) if k == 'break' else (k, a, c) for k, a, c in outs]

    def run_cases(self, items, i, st):
        seq = []
        for it in items[i:]:
            seq += it.stmts or []
        saved = dict(st.frames[-1])
        outs = self.seq(seq, st)
        for o in outs:
            self.leave(o[1], saved)
        return outs

    # ------------------------------------------------------------------ loops
    def ex_While(self, s, st):
        return self.loop(s, st, None, s.cond, None, s.stmt, False)

    def ex_DoWhile(self, s, st):
        return self.loop(s, st, None, s.cond, None, s.stmt, True)

    def ex_For(self, s, st):
        saved = dict(st.frames[-1])
        outs = []
        pre = self.ex(s.init, st) if s.init is not None else [('normal', st, None)]
        for k, x, v in pre:
            outs += self.loop(s, x, s.init, s.cond, s.next, s.stmt, False)
        for o in outs:
            self.leave(o[1], saved)
        return outs

    def loop_key(self, node):
        return (tuple(self.callpath), id(node))

    def loop_iter(self, st, cond, nxt, body, do_while):
        """one iteration from st: (list of end-of-iteration states, list of exits (kind, state, val))"""
        ends, exits = [], []
        if do_while:
            ts, fs = [st], []
        else:
            ts, fs = self.branch(cond, st)
        for x in fs:
            exits.append(('normal', x, None))
        for x in ts:
            saved = dict(x.frames[-1])
            for k, y, v in self.ex(body, x):
                if k in ('normal', 'continue'):
                    self.leave(y, saved)
                    if do_while:
                        t2, f2 = self.branch(cond, y)
                        ends += t2
                        exits += [('normal', z, None) for z in f2]
                        continue
                    ys = [('normal', y, None)]
                    if nxt is not None:
                        ys = self.ex(nxt, y)
                    ends += [z for _, z, _ in ys]
                elif k == 'break':
                    self.leave(y, saved)
                    exits.append(('normal', y, None))
                else:
                    exits.append((k, y, v))
        return ends, exits

    def havoc(self, st, mods, base):
        """havoc everything in mods; objects must exist in base"""
        for m in sorted(mods, key=repr):
            if m[0] == 'fam':
                old = self.fam_get(st, m[1])
                st.fam[m[1]] = z3.Const('fam_%s!%d' % (m[1], uid()), old.sort())
                continue
            oid = m[0]
            if oid not in base.heap:
                continue
            o = st.heap[oid].copy()
            if m[1] == '#len':
                o.len = self.fresh(ULONG, o.name + '.len', st)
            elif isinstance(m[1], str) and m[1].startswith('#'):
                if m[1] == '#alive':
                    raise Unsupported('loop changes liveness of ' + o.name)
            elif o.mode == 'S':
                _, i, p = m
                t = dict(leafs(o.elem))[p]
                if t.k == 'ptr' and not is_fn_ptr(t):
                    v = o.c[(i, p)]
                    tgt = self.ptr_targets.get((oid, i, p))
                    if tgt is None or len(tgt) != 1:
                        o.c[(i, p)] = Ptr(0, 0, z3.Bool('lp!%d' % uid()), '', 'pointer changed by loop')
                    else:
                        (ob, path), nullable = list(tgt.items())[0]
                        o.c[(i, p)] = Ptr(ob, z3.Int('%s.off!%d' % (o.name, uid())), z3.Bool('%s.null!%d' % (o.name, uid())) if nullable is True else (F if nullable is False else nullable), path)
                else:
                    o.c[(i, p)] = self.fresh(t, o.name + ('.' + p if p else ''), st)
            else:
                p = m[1]
                if isinstance(o.c.get(p), PA):
                    a = o.c[p]
                    tg = self.pa_targets.get((oid, p), a.target)
                    n = self.fresh_arr(dict(leafs(o.elem))[p], o.name + '.' + p)
                    o.c[p] = PA(tg, n.objs, n.offs, n.nulls)
                else:
                    o.c[p] = self.fresh_arr(dict(leafs(o.elem))[p], o.name + ('.' + p if p else ''))
            st.heap[oid] = o

    def loop(self, node, st, init, cond, nxt, body, do_while):
        key = self.loop_key(node)
        idx = self.loopidx.get(key)
        spec = None
        if idx is not None and self.contract is not None:
            spec = self.contract.loops.get(idx)
        # ---- infer what the loop modifies
        mods = set()
        ptr_t, pa_t = {}, {}
        self.collect += 1
        try:
            for _ in range(6):
                s0 = st.copy(); s0.writes = set()
                self.ptr_targets, self.pa_targets = ptr_t, pa_t
                self.havoc(s0, mods, st)
                if spec is not None and spec.ghost0:
                    spec.ghost0(LCtx(self, s0, st, self.ctx))
                ends, exits = self.loop_iter(s0, cond, nxt, body, do_while)
                new = set(mods)
                w = set()
                for y in ends:
                    w |= y.writes if y.writes is not None else set()
                w = {m for m in w if m[0] == 'fam' or m[0] in st.heap}
                new |= w
                # pointer targets
                p2 = {}
                for m in new:
                    if m[0] == 'fam' or len(m) != 3:
                        continue
                    o = st.heap[m[0]]
                    if isinstance(m[1], str):
                        continue
                    for y in [st] + ends:
                        v = y.heap[m[0]].c.get((m[1], m[2])) if y.heap.get(m[0]) is not None and y.heap[m[0]].mode == 'S' else None
                        if isinstance(v, Ptr):
                            d = p2.setdefault(m, {})
                            if v.poison:
                                continue
                            if isinstance(v.obj, int) and v.obj == 0:
                                d['null'] = True
                            else:
                                kk = (v.obj, v.path)
                                # False: never null; a term: null exactly when it holds; True: unknown
                                new_n = False if is_false(v.null) else v.null
                                if kk not in d:
                                    d[kk] = new_n
                                elif d[kk] is True or new_n is False and d[kk] is False:
                                    pass
                                elif d[kk] is False or new_n is False or not d[kk].eq(new_n):
                                    d[kk] = True
                for m, d in p2.items():
                    nl = d.pop('null', False)
                    if nl:
                        for kk in d:
                            d[kk] = True
                pa2 = {}
                for m in new:
                    if m[0] == 'fam' or len(m) != 2 or m[1].startswith('#'):
                        continue
                    for y in [st] + ends:
                        o = y.heap.get(m[0])
                        if o is not None and isinstance(o.c.get(m[1]), PA) and o.c[m[1]].target is not None:
                            pa2[m] = o.c[m[1]].target
                stable = new == mods and {k: {a: str(b) for a, b in d.items()} for k, d in p2.items()} == {k: {a: str(b) for a, b in d.items()} for k, d in ptr_t.items()} and pa2 == pa_t
                mods, ptr_t, pa_t = new, p2, pa2
                if stable:
                    break
            else:
                raise Unsupported('loop modifications do not stabilise')
        finally:
            self.collect -= 1
        if st.writes is not None:
            st.writes |= {m for m in mods}
        lname = 'loop%s' % (idx if idx is not None else '?')
        if spec is None:
            if not self.collect:
                raise Unsupported('no invariant for %s of %s' % (lname, self.cur))
        entry = st.copy()
        if spec is not None and spec.ghost0:
            self.ctx_state(st)
            spec.ghost0(LCtx(self, st, entry, self.ctx))
            entry.ghosts = dict(st.ghosts)
        cands = self.auto_inv(st, entry, cond, mods) if not self.collect or True else []
        # ---- initialisation
        if spec is not None and not self.collect:
            self.check_inv(spec, st, entry, lname, 'init')
        # ---- arbitrary iteration
        while True:
            h = st.copy()
            self.ptr_targets, self.pa_targets = ptr_t, pa_t
            self.havoc(h, mods, entry)
            if spec is not None:
                for g in spec.ghosts:
                    if g in h.ghosts:
                        h.ghosts[g] = z3.Const('%s!%d' % (g, uid()), h.ghosts[g].sort())
            for c in cands:
                h.assume(c(h), 'auto')
            if spec is not None:
                L = LCtx(self, h, entry, self.ctx)
                self.ctx_state(h)
                for n, f, *_ in spec.inv(L):
                    h.assume(f, '%s/%s' % (lname, n))
                if spec.head:
                    spec.head(L)
            hh = h.copy()
            mark = len(self.obs)
            ends, exits = self.loop_iter(h, cond, nxt, body, do_while)
            bad = [c for c in cands if not all(self.quick(y, c(y)) for y in ends)]
            if not bad:
                break
            del self.obs[mark:]
            cands = [c for c in cands if c not in bad]
        outs = []
        for y in ends:
            extra = {o for o in y.new if o not in entry.new and y.heap[o].alive and y.heap[o].kind == 'heap'}
            if extra and not self.collect:
                self.oblige(y, 'leak', '%s: blocks allocated in the loop are released' % lname, F, ('C11', 'C12'))
            if spec is not None and not self.collect:
                if spec.step:
                    self.ctx_state(y)
                    spec.step(LCtx(self, y, entry, self.ctx, hh))
                self.check_inv(spec, y, entry, lname, 'preserved', hh)
        for k, y, v in exits:
            if spec is not None and spec.exit and not self.collect:
                self.ctx_state(y)
                spec.exit(LCtx(self, y, entry, self.ctx, hh))
            outs.append((k, y, v))
        return outs

    def ctx_state(self, st):
        if self.ctx is not None:
            self.ctx.st = st

    def check_inv(self, spec, st, entry, lname, phase, prev=None):
        self.ctx_state(st)
        L = LCtx(self, st, entry, self.ctx, prev)
        for x in spec.inv(L):
            n, f = x[0], x[1]
            tags = x[2] if len(x) > 2 else ()
            self.oblige(st, 'inv', '%s/%s/%s' % (lname, n, phase), f, tags, assume=False)

    def auto_inv(self, st, entry, cond, mods):
        """cheap candidate invariants: counters stay above their start and on the near side of the bound"""
        c = []
        scal = [m for m in mods if len(m) == 3 and m[0] != 'fam' and not isinstance(m[1], str)]
        def getter(m):
            def g(s):
                v = s.heap[m[0]].c.get((m[1], m[2]))
                if isinstance(v, Ptr):
                    return v.off if not v.poison else None
                return v
            return g
        for m in scal:
            o = st.heap.get(m[0])
            if o is None or o.mode != 'S':
                continue
            v0 = o.c.get((m[1], m[2]))
            if isinstance(v0, Ptr):
                if v0.poison or v0.obj == 0:
                    continue
                v0 = v0.off
            elif not (z3.is_expr(v0) and v0.sort() == IS):
                continue
            g = getter(m)
            c.append(lambda s, g=g, v0=v0: (g(s) >= v0) if g(s) is not None else T)
            c.append(lambda s, g=g, v0=v0: (g(s) <= v0) if g(s) is not None else T)
        def atoms(e):
            if isinstance(e, c_ast.BinaryOp) and e.op == '&&':
                return atoms(e.left) + atoms(e.right)
            if isinstance(e, c_ast.BinaryOp) and e.op in ('<', '!=', '>'):
                return [e]
            return []
        for e in atoms(cond) if cond is not None else []:
            def ev2(s, x):
                cc = self.collect; self.collect += 1
                try:
                    s = s.copy(); s.writes = None
                    r = self.ev(x, s)
                    if len(r) != 1:
                        return None
                    v = r[0][0]
                    if v.t.k == 'ptr' and isinstance(v.v, Ptr):
                        return v.v.off if not v.v.poison else None
                    if v.t.k == 'int':
                        return v.v
                    return None
                except (Unsupported, Vacuous):
                    return None
                finally:
                    self.collect = cc
            l, r = (e.left, e.right) if e.op != '>' else (e.right, e.left)
            def cand(s, l=l, r=r):
                a, b = ev2(s, l), ev2(s, r)
                if a is None or b is None:
                    return T
                return a <= b
            c.append(cand)
            if e.op == '!=':
                c.append(lambda s, l=l, r=r: cand(s, r, l))
        ok = []
        for x in c:
            try:
                if self.quick(st, x(st)):
                    ok.append(x)
            except Unsupported:
                pass
        return ok

    # ------------------------------------------------------------------ loop numbering
    def number_loops(self, name):
        self.loopidx = {}
        cnt = [0]

        def walk(n, path, depth):
            if depth > 12:
                return
            if isinstance(n, (c_ast.For, c_ast.While, c_ast.DoWhile)):
                self.loopidx[(tuple(path), id(n))] = cnt[0]
                cnt[0] += 1
            if isinstance(n, c_ast.FuncCall) and isinstance(n.name, c_ast.ID):
                cn = n.name.name
                if cn == '__vp_assert':
                    return
                for _, ch in n.children():
                    walk(ch, path, depth)
                c = self.contracts.get(cn)
                if (c is None or c.inline) and cn in self.prog.funcs and getattr(self, 'm_' + cn, None) is None:
                    walk(self.prog.funcs[cn].body, path + [id(n)], depth + 1)
                return
            for _, ch in n.children():
                walk(ch, path, depth)
        walk(self.prog.funcs[name].body, [], 0)
        return cnt[0]


# return type tracking: wrap inline
def _inline_rt(f):
    def g(self, name, vs, st, node):
        self.curret.append(self.prog.protos[name].ret)
        try:
            return f(self, name, vs, st, node)
        finally:
            self.curret.pop()
    return g


Engine.inline = _inline_rt(Engine.inline)


class Prover:
    """proof steps, shared by loop hooks and postconditions"""

    def lemma(self, name, f, tags=()):
        self.eng.oblige(self.st, 'lemma', name, f, tags)

    def by(self, name, f, steps=None, tags=(), drop=(), only=None):
        """prove f with the help of steps (lemmas and definitions used for this proof only), without the facts named in drop, or from quantifier-free facts and those named in only"""
        keep = list(self.st.pc)
        if only is not None:
            self.st.pc[:] = [x for x in keep if not x.q or any(x.n == d or x.n.endswith((': ' + d, '/' + d)) for d in only)]
        if drop:
            self.st.pc[:] = [x for x in keep if not any(d in x.n for d in drop)]
        if steps:
            steps()
        self.eng.oblige(self.st, 'lemma', name, f, tags, assume=False)
        self.st.pc[:] = keep
        self.st.assume(f, name)

    def forget(self, *names):
        """drop facts that are no longer needed"""
        self.st.pc[:] = [x for x in self.st.pc if not any(d in x.n for d in names)]

    def assume_def(self, f, why):
        self.st.assume(f, why)

    def setg(self, name, v):
        if z3.is_expr(v) and z3.is_array(v) and v.num_args() > 0:
            w = z3.Const('%s!%d' % (name, uid()), v.sort())
            self.st.assume(w == v, 'ghost')
            v = w
        self.st.ghosts[name] = v

    def induct(self, name, vs, j, lo, hi, P, pats, tags=(), guard=T, drop=(), steps=None):
        """forall vs, j: guard and lo <= j <= hi => P(j), by induction over j: base and step are obligations, the rest is the induction principle"""
        keep = list(self.st.pc)
        if drop:
            self.st.pc[:] = [x for x in keep if not any(d in x.n for d in drop)]
        if steps:
            steps()
        at = lambda f, k: z3.substitute(f, (j, I(k)))
        f = P(j)
        self.eng.oblige(self.st, 'lemma', name + '/base', forall(vs, Imp(And(guard, lo <= hi), at(f, lo))) if vs else Imp(lo <= hi, at(f, lo)), tags, assume=False)
        self.eng.oblige(self.st, 'lemma', name + '/step', forall(vs + [j], Imp(And(guard, lo <= j, j < hi, f), at(f, j + 1))), tags, assume=False)
        self.st.pc[:] = keep
        self.st.assume(forall(vs + [j], Imp(And(guard, lo <= j, j <= hi), f), pats), name)

    def adopt(self, callee, names):
        """take over the witnesses of a called function under their own names"""
        self.st.ghosts = dict(self.st.ghosts)
        for n in names:
            if callee + '.' + n in self.st.ghosts:
                self.st.ghosts[n] = self.st.ghosts[callee + '.' + n]

    def call(self, callee):
        """context of the last call of callee on this path: its views read the state before the call through .o"""
        return self.st.ghosts['@' + callee]


class LCtx(Prover):
    """what a loop specification sees"""

    def __init__(self, eng, st, entry, ctx, prev=None):
        self.eng = eng; self.st = st; self.entry = entry; self.c = ctx; self.prev = prev

    def _val(self, st, name):
        names = [name] + [n for n in self.eng.rename.get(name, [])]
        for fr in list(reversed(st.frames[1:])) + [st.frames[0]]:
            for n in names:
                if n in fr:
                    o = st.heap[fr[n]]
                    if o.kind == 'localarr':
                        return Val(ptr(o.elem), Ptr(fr[n], 0))
                    if o.elem.k == 'struct':
                        return Val(o.elem, {q: o.c[(0, q)] for q, _ in leafs(o.elem)})
                    return Val(o.elem, o.c[(0, '')])
        if name in self.eng.prog.globals:
            self.eng.mk_global(st, name)
            o = st.heap[st.frames[0][name]]
            return Val(o.elem, o.c[(0, '')])
        raise Unsupported('specification variable %s not found' % name)

    def has(self, name):
        try:
            self._val(self.st, name)
            return True
        except Unsupported:
            return False

    def v(self, name, field=None):
        x = self._val(self.st, name).v
        return x[field] if field else x

    def e(self, name, field=None):
        x = self._val(self.entry, name).v
        return x[field] if field else x

    def p(self, name, field=None):
        x = self._val(self.prev, name).v
        return x[field] if field else x

    def off(self, name):
        return self.v(name).off

    def arr(self, name, field=None, base=None):
        """array view through the pointer variable `name` (struct variable: its pointer field)"""
        x = self._val(self.st, name)
        p = x.v[field] if field else x.v
        t = dict(x.t.fields)[field] if field else x.t
        return AV(self, p, t.to)

    def g(self, name):
        return self.st.ghosts[name]

    @property
    def cur_st(self):
        return self.st

    @property
    def old(self):
        return self.c.old


class AV:
    """array view: elements from pointer p on; reads the state of its owner"""

    def __init__(self, owner, p, elem, n=None, name='', nullc=None):
        self.owner = owner; self.p = p; self.elem = elem; self.n = n; self.name = name; self.isnull = nullc

    def _eng(self):
        return self.owner.eng

    def rd(self, st, k, field=''):
        e = self._eng(); p = self.p
        t = dict(leafs(self.elem))[field] if self.elem.k == 'struct' or field else self.elem
        if p.fam():
            return z3.Select(z3.Select(e.fam_get(st, e.fam_key(t)), p.obj), add(p.off, k))
        if isinstance(p.obj, int) and p.obj == 0 and not p.poison and t.k in ('int', 'bool', 'double'):
            if not hasattr(self, 'nothing'):
                self.nothing = z3.Array('null!%d' % uid(), IS, sort_of(t))      # no elements: nothing known about them
            return z3.Select(self.nothing, add(p.off, k))
        o = st.heap.get(p.obj)
        if o is None:
            raise Unsupported('view of missing object')
        if o.elem is None:
            raise Unsupported('view of untyped object')
        path = (p.path + '.' + field if field else p.path) if p.path else field
        if o.mode == 'S':
            i = num(add(p.off, k))
            if i is None:
                raise Unsupported('symbolic view of small object')
            return o.c[(i, path)]
        a = o.c[path]
        if isinstance(a, PA):
            return e.pa_load(a, add(p.off, k))
        return z3.Select(a, add(p.off, k))

    def __getitem__(self, k):
        return self.rd(self.owner.cur_st, I(k))

    def at(self, k, field=''):
        return self.rd(self.owner.cur_st, I(k), field)

    def o(self, k, field=''):
        return self.rd(self.owner.old, I(k), field)

    def ent(self, k, field=''):
        """value at loop entry"""
        return self.rd(self.owner.entry, I(k), field)

    def prev(self, k, field=''):
        """value at the loop head of this iteration"""
        return self.rd(self.owner.prev, I(k), field)

    def each(self, lo, hi, body, field=''):
        """forall lo <= k < hi: body(k); quantified over the position in the underlying object, so that the pattern matches"""
        z = z3.Int('z'); off = self.p.off
        k = sub(z, off) if num(off) != 0 else z
        base = AV(self.owner, Ptr(self.p.obj, I(0), F, self.p.path), self.elem)
        return forall([z], Imp(And(k >= lo, k < hi), body(k)), [base.at(z, field)])

    def len(self):
        return self._eng().obj_len(self.owner.cur_st, self.p)

    def raw(self, st=None, field=''):
        st = st or self.owner.cur_st
        return st.heap[self.p.obj].c[field]


class LoopSpec:
    def __init__(self, inv, ghosts=(), ghost0=None, step=None, exit=None, head=None):
        self.head = head; self.inv = inv; self.ghosts = ghosts; self.ghost0 = ghost0; self.step = step; self.exit = exit
