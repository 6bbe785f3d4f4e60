"""Contracts: predicates over views, used in produce mode (assume) and consume mode (prove)."""
import z3
from vc import *
from vc import AV as _AV, LCtx
import vc


class SV:
    """struct (or scalar cell) view at a pointer"""

    def __init__(self, c, p, t, name, nullc=F):
        self.c = c; self.p = p; self.t = t; self.name = name; self.isnull = nullc

    def _rd(self, st, f):
        e = self.c.eng
        lt = dict(leafs(self.t))[f]
        q = Ptr(self.p.obj, self.p.off, F, (self.p.path + '.' + f if f else self.p.path) if self.p.path else f)
        return e.load(st, q, lt, '', False)

    def f(self, f=''):
        return self._rd(self.c.st, f)

    def o(self, f=''):
        return self._rd(self.c.old, f)

    def __call__(self, f=''):
        return self.f(f)

    def loc(self, f=''):
        return (self, f)


class Ctx(Prover):
    variant = {}

    def __init__(self, eng, contract, name, args, st, mode):
        self.eng = eng; self.contract = contract; self.name = name; self.args = args; self.st = st; self.mode = mode
        self.old = None
        self.phase = 'pre'
        self.views = {}
        self.modset = []        # (oid/fam, path or idx...) locations the function may change
        self.objs = []          # objects of the precondition: (Ptr, n, mod, name)
        self.freed_set = set()
        self.claimed = set()
        self.ret = None
        self.v = type('V', (), {})()
        self.fam_mod = False
        self.realloc_ok = set()
        self.anon = 0
        self.inpost_facts = 0

    # ---- helpers
    @property
    def cur_st(self):
        return self.st

    def producing(self):
        return (self.mode == 'verify') == (self.phase == 'pre')

    def a(self, n):
        return self.args[n].v

    def inside(self, loc, av):
        """pointer into the array av; returns the index it points to"""
        get, setp, t = self.lookup_loc(loc)
        if self.producing():
            k = z3.Int('%s.at!%d' % (self.lname(loc), uid()))
            setp(av.p.moved(k))
            return k
        p = get()
        if p.poison or p.fam() or p.obj != av.p.obj:
            raise Unsupported('%s does not point into %s' % (self.lname(loc), av.name))
        return sub(p.off, av.p.off)

    def local(self, name, st=None):
        """current value of a parameter or local variable (verification of a body only)"""
        return LCtx(self.eng, st or self.st, st or self.st, self)._val(st or self.st, name).v

    def has_local(self, name):
        return LCtx(self.eng, self.st, self.st, self).has(name)

    def fact(self, name, f, tags=(), kind=None, drop=()):
        """drop: facts (by name) not needed for this one when it is a goal"""
        f = B(f)
        if self.producing():
            self.st.assume(f, '%s: %s' % (self.name, name))
        else:
            if drop:
                keep = list(self.st.pc)
                self.st.pc[:] = [x for x in keep if not any(d in x.n for d in drop)]
            self.eng.oblige(self.st, kind or ('post' if self.mode == 'verify' else 'pre'),
                            name if self.mode == 'verify' else 'call of %s requires %s' % (self.name, name), f, tags,
                            assume=(self.phase == 'pre') or self.mode == 'call')
            if drop:
                self.st.pc[:] = keep + ([self.st.pc[-1]] if self.st.pc and self.st.pc[-1] not in keep else [])

    def lookup_loc(self, loc):
        """-> (get, set, ctype)"""
        if isinstance(loc, str):
            if loc == 'return':
                t = self.eng.prog.protos[self.name].ret
                return (lambda: self.ret), (lambda v: setattr(self, 'ret', v)), t
            t = self.args[loc].t

            def setter(v):
                self.args[loc] = Val(t, v)
                if self.mode == 'verify':
                    fr = self.st.frames[-1]
                    self.eng.store(self.st, Ptr(fr[loc], 0), t, v, loc, False)
            return (lambda: self.args[loc].v), setter, t
        sv, f = loc
        lt = dict(leafs(sv.t))[f]
        q = Ptr(sv.p.obj, sv.p.off, F, (sv.p.path + '.' + f if f else sv.p.path) if sv.p.path else f)
        return (lambda: self.eng.load(self.st, q, lt, '', False)), (lambda v: self.eng.store(self.st, q, lt, v, '', False)), lt

    def lname(self, loc):
        return loc if isinstance(loc, str) else '%s->%s' % (loc[0].name, loc[1])

    def _pointer(self, loc, n, null, what, elem=None, heap=False, mode=None, small=False, at=None):
        """produce or consume a pointer to n elements; null: None (never), 'maybe', or condition (null iff)"""
        get, setp, t = self.lookup_loc(loc)
        elem = elem or t.to
        nm = self.lname(loc)
        if self.producing():
            kind = 'pheap' if heap else 'param'
            if elem.k == 'void':
                oid = uid(); o = OS(CHAR, I(0), 'A', {'': z3.Array('opq!%d' % oid, IS, IS)}, 'opaque', nm)
                self.st.heap[oid] = o
            else:
                oid = self.eng.new_obj(self.st, elem, n, kind, nm, mode=mode)
                if num(n) is None:
                    self.st.assume(And(I(n) >= 0, mul(I(n), self.eng.prog.sizeof(elem)) <= (1 << 63) - 1), 'object size')
            if null is None:
                nc = F
            elif isinstance(null, str) and null == 'maybe':
                nc = z3.Bool('%s.isnull!%d' % (nm, uid()))
            else:
                nc = B(null)
            p = Ptr(oid, 0, nc)
            setp(p if at is None else p.moved(at))
            return p, nc
        p = get()
        if at is not None and not p.poison:
            p = p.moved(sub(I(0), at))
        e = self.eng
        tags = ('C12',)
        pn = ('call of %s: ' % self.name if self.mode == 'call' else '')
        if p.poison:
            if isinstance(null, str) or (null is not None and not is_false(null)):
                # unspecified pointer where null would be acceptable
                pass
            e.oblige(self.st, 'mem', pn + 'pointer %s is valid (%s)' % (nm, p.poison), F, tags)
            raise Vacuous()
        isn = e.isnull(p)
        if null is None:
            e.oblige(self.st, 'mem', pn + 'pointer %s is not null' % nm, Not(isn), tags)
            if is_true(isn):
                raise Vacuous()
            nc = F
        elif isinstance(null, str) and null == 'maybe':
            nc = isn
        else:
            e.oblige(self.st, 'mem', pn + 'pointer %s is null exactly when specified' % nm, B(isn) == B(null) if not (is_true(isn) or is_false(isn)) else (B(null) if is_true(isn) else Not(null)), tags)
            nc = B(null)
        if isinstance(p.obj, int) and p.obj == 0:
            return p, T
        if elem.k != 'void':
            if not p.fam():
                o = e.os(self.st, p.obj)
                if o.elem is None:
                    e.retype(self.st, p, elem); o = e.os(self.st, p.obj)
                lt = o.elem
                if p.path:
                    lt = self._sub(o.elem, p.path)
                if lt.k != elem.k or (lt.k in ('int', 'struct') and not lt.same(elem)):
                    raise Unsupported('%s: element type %r for %r' % (nm, o.elem, elem))
                if o.kind == 'opaque':
                    raise Unsupported('opaque object passed as array')
                g = Imp(Not(nc), And(B(o.alive), p.off >= 0, add(p.off, n) <= o.len))
                if p.path:
                    g = B(o.alive)
            else:
                g = Imp(Not(nc), And(e.obj_alive(self.st, p), p.off >= 0, add(p.off, n) <= e.obj_len(self.st, p)))
            e.oblige(self.st, 'mem', pn + 'pointer %s covers the required elements' % nm, g, tags)
            if heap:
                if p.fam():
                    g = Imp(Not(nc), And(eq(p.off, I(0)), eq(e.obj_len(self.st, p), I(n))))
                else:
                    g = Imp(Not(nc), And(eq(p.off, I(0)), B(o.kind in ('heap', 'pheap')), eq(o.len, I(n))))
                e.oblige(self.st, 'mem', pn + 'pointer %s is a whole heap block of the stated size' % nm, g, tags + ('C11',))
        return p, nc

    def _sub(self, t, path):
        for f in path.split('.'):
            t = dict(t.fields)[f]
        return t

    # ---- shapes
    def stype(self, name):
        return self.eng.prog.structs[name]

    def nl(self, f):
        """instance of a machine-checked lemma of integer arithmetic"""
        self.st.assume(f, 'arithmetic lemma')

    def witness(self, name, sort, value=None):
        """existentially specified ghost value: chosen by the proof, unknown to callers"""
        if self.producing():
            w = z3.Const('%s.%s!%d' % (self.name, name, uid()), sort)
            self.st.ghosts = dict(self.st.ghosts); self.st.ghosts[self.name + '.' + name] = w
            return w
        return value() if callable(value) else self.st.ghosts[name]

    def struct(self, loc, null=None, mod=False, heap=False, name=None, elem=None):
        """pointer to one struct or scalar cell. mod: False, True or iterable of leaf paths"""
        get, setp, t = self.lookup_loc(loc)
        elem = elem or t.to
        p, nc = self._pointer(loc, I(1), null, 'struct', elem=elem, heap=heap, mode='S' if self.producing() else None)
        sv = SV(self, p, elem, self.lname(loc), nc)
        sv.n = I(1)
        if self.phase == 'pre':
            paths = [q for q, _ in leafs(elem)]
            m = set(paths) if mod is True else set(mod or ())
            self.objs.append(dict(p=p, n=I(1), mod=m, name=self.lname(loc), elem=elem, nc=nc, av=sv))
        else:
            if heap and not (isinstance(p.obj, int) and p.obj == 0):
                self._claim(p)
        self.views[name or self.lname(loc)] = sv
        return sv

    def arr(self, loc, n, null=None, mod=False, heap=False, name=None, at=None):
        """n elements; at: the pointer points to element `at` of them"""
        get, setp, t = self.lookup_loc(loc)
        elem = t.to
        p, nc = self._pointer(loc, I(n), null, 'array', heap=heap, mode='A' if self.producing() else None, at=at)
        av = _AV(self, p, elem, I(n), self.lname(loc), nc)
        if self.phase == 'pre':
            m = set(q for q, _ in leafs(elem)) if mod is True else set(mod or ())
            self.objs.append(dict(p=p, n=I(n), mod=m, name=self.lname(loc), elem=elem, nc=nc, av=av))
        else:
            if heap and not (isinstance(p.obj, int) and p.obj == 0):
                self._claim(p)
        self.views[name or self.lname(loc)] = av
        return av

    def opaque(self, loc, null=None):
        p, nc = self._pointer(loc, I(0), null, 'opaque')
        self.objs.append(dict(p=p, n=I(0), mod=set(), name=self.lname(loc), elem=None, nc=nc, av=None))
        return p, nc

    # ---- post shapes
    def _claim(self, p):
        if self.mode == 'verify' and not p.fam():
            self.claimed.add(p.obj)

    def fresh(self, loc, n, null=None, name=None, elem=None, init=None):
        """a newly allocated heap block owned by the caller from now on"""
        get, setp, t = self.lookup_loc(loc)
        elem = elem or t.to
        if self.producing():
            oid = self.eng.new_obj(self.st, elem, n, 'heap', self.name + '.' + self.lname(loc), mode='A')
            self.st.new = self.st.new | {oid}
            if num(n) is None:
                self.st.assume(And(I(n) >= 0, mul(I(n), self.eng.prog.sizeof(elem)) <= (1 << 63) - 1), 'object size')
            nc = B(null) if null is not None else F
            p = Ptr(oid, 0, nc)
            setp(p)
        else:
            p, nc = self._pointer(loc, I(n), null, 'fresh', heap=True)
            if isinstance(p.obj, int) and p.obj == 0:
                oid = self.eng.new_obj(self.st, elem, n, 'ghost', self.name, mode='A')
                p = Ptr(oid, 0, T)
            else:
                self.eng.oblige(self.st, 'leak', '%s is a block allocated by this call' % self.lname(loc), Or(nc, B(not p.fam() and p.obj not in self.old.heap)), ('C12', 'C11'))
                self._claim(p)
        av = _AV(self, p, elem, I(n), self.lname(loc), nc)
        self.views[name or self.lname(loc)] = av
        return av

    def fresh_struct(self, loc, name=None):
        get, setp, t = self.lookup_loc(loc)
        if self.producing():
            oid = self.eng.new_obj(self.st, t.to, 1, 'heap', self.name + '.' + self.lname(loc), mode='S')
            self.st.new = self.st.new | {oid}
            p = Ptr(oid, 0); setp(p)
        else:
            p, nc = self._pointer(loc, I(1), None, 'fresh', heap=True)
            self.eng.oblige(self.st, 'leak', '%s is a block allocated by this call' % self.lname(loc), B(not p.fam() and p.obj not in self.old.heap), ('C12', 'C11'))
            self._claim(p)
        return SV(self, p, t.to, self.lname(loc))

    def length(self, loc, least=1):
        """number of elements of the object behind a pointer argument (any, in the verification of the body)"""
        get, setp, t = self.lookup_loc(loc)
        if self.producing():
            n = z3.Int('%s.len!%d' % (self.lname(loc), uid()))
            self.st.assume(n >= least)
            return n
        p = get()
        if p.poison:
            raise Unsupported('length of an invalid pointer')
        n = self.eng.obj_len(self.st, p)
        self.eng.oblige(self.st, 'mem', ('call of %s: ' % self.name if self.mode == 'call' else '') + '%s is not empty' % self.lname(loc), n >= least, ('C12',))
        return n

    def ptrs_into(self, av, target):
        """the elements of the pointer array av are non-null pointers into target"""
        o = self.st.heap[av.p.obj]; a = o.c['']
        k = z3.Int('k')
        f = forall([k], Imp(And(0 <= k, k < av.n), And(Not(z3.Select(a.nulls, k)), z3.Select(a.offs, k) >= 0)), [z3.Select(a.offs, k)])
        if self.producing():
            o = o.copy(); o.c[''] = PA(target.p.obj, a.objs, a.offs, a.nulls); self.st.heap[av.p.obj] = o
            self.st.assume(f, 'pointers into ' + target.name)
        else:
            self.eng.oblige(self.st, 'mem', '%s points into %s' % (av.name, target.name), And(B(a.target == target.p.obj), f), ('C12',))

    def null(self, loc, tags=()):
        get, setp, t = self.lookup_loc(loc)
        if self.producing():
            setp(NULL)
        else:
            p = get()
            if p.poison:
                self.eng.oblige(self.st, 'post', '%s is null' % self.lname(loc), F, ('C12',) + tuple(tags))
            else:
                self.eng.oblige(self.st, 'post', '%s is null' % self.lname(loc), self.eng.isnull(p), ('C12',) + tuple(tags))

    def points(self, loc, p, null=None, tags=()):
        """pointer at loc equals p"""
        get, setp, t = self.lookup_loc(loc)
        if self.producing():
            setp(p)
        else:
            q = get()
            if q.poison:
                self.eng.oblige(self.st, 'post', '%s points where specified' % self.lname(loc), F, ('C12',) + tuple(tags))
            else:
                r = self.eng.compare(self.st, '==', Val(t, q), Val(t, p)).v
                self.eng.oblige(self.st, 'post', '%s points where specified' % self.lname(loc), r, ('C12',) + tuple(tags))

    def same(self, loc, tags=()):
        get, setp, t = self.lookup_loc(loc)
        cur = self.st
        self.st = self.old
        try:
            p = get()
        finally:
            self.st = cur
        if isinstance(p, Ptr):
            if p.poison:
                return
            self.points(loc, p, tags=tags)
        else:
            if self.producing():
                setp(p)
            else:
                self.eng.oblige(self.st, 'post', '%s unchanged' % self.lname(loc), eq(get(), p), tags)

    def freed(self, av):
        p = av.p
        if self.producing():
            if p.fam():
                al = self.eng.fam_get(self.st, 'alive')
                self.st.fam['alive'] = z3.Store(al, p.obj, F)
                self.eng.wrote(self.st, ('fam', 'alive'))
            elif not (isinstance(p.obj, int) and p.obj == 0):
                self.eng.set_os(self.st, p.obj, alive=False)
                self.st.new = self.st.new - {p.obj}
        else:
            if p.fam():
                g = Not(z3.Select(self.eng.fam_get(self.st, 'alive'), p.obj))
            else:
                g = B(not self.st.heap[p.obj].alive)
            self.freed_set.add(p.obj if isinstance(p.obj, int) else None)
            self.eng.oblige(self.st, 'leak', '%s is released' % av.name, Or(B(getattr(av, 'isnull', F)), g), ('C11', 'C12'))

    def resized(self, av, n):
        """same block identity, now n elements (realloc)"""
        p = av.p
        self.realloc_ok.add(p.obj if isinstance(p.obj, int) else None)
        if self.producing():
            self.eng.set_os(self.st, p.obj, len=I(n))
        else:
            self.eng.oblige(self.st, 'post', '%s has the stated size' % av.name, eq(self.st.heap[p.obj].len, I(n)), ('C12',))

    def glob(self, name):
        st = self.st
        if name not in st.frames[0]:
            self.eng.mk_global(st, name)
        oid = st.frames[0][name]
        return SV(self, Ptr(oid, 0), st.heap[oid].elem, name)

    def const(self, name):
        """value of a constant global or enum constant"""
        if name in self.eng.prog.enum_consts:
            return I(self.eng.prog.enum_consts[name])
        return self.glob(name).f('')

    def cases(self, *cs):
        """(name, guard, body): exactly the listed outcomes are allowed"""
        raise NotImplementedError


ERRG = ('iscc_error_code', 'iscc_error_msg', 'iscc_error_file', 'iscc_error_line')


class Contract:
    """pre(c) declares shapes and facts; post(c) yields (name, guard, body) outcome cases (body may be None)"""

    def __init__(self, name, pre, post=None, loops=None, props=(), inline=False, modifies_errors=None, trusted=None, ghost=None, globs=(), notes='', fn=None):
        self.fn = fn or name; self.name = self.fn; self.key = name; self.pre = pre; self.post = post; self.loops = dict(loops or {}); self.props = props
        self.inline = inline; self.trusted = trusted; self.globs = tuple(globs); self.modifies_errors = modifies_errors
        self.ghost = ghost; self.notes = notes

    def returns_ec(self, eng):
        return self.contract_is_ec(eng, self.name)

    @staticmethod
    def contract_is_ec(eng, name):
        fd = eng.prog.funcs.get(name)
        if fd is None:
            return False
        try:
            t = fd.decl.type.type.type.names
            return t == ['scc_ErrorCode']
        except Exception:
            return False

    # ------------------------------------------------------------ call site
    def apply(self, eng, name, vs, st):
        names = [n for n, _ in eng.params(name)] if name in eng.prog.funcs else None
        args = {n: v for n, v in zip(names, vs)}
        saved_ctx = eng.ctx
        c = Ctx(eng, self, name, args, st, 'call')
        c.phase = 'pre'
        self.pre(c)
        # separation
        for i, x in enumerate(c.objs):
            for y in c.objs[i + 1:]:
                if not x['mod'] and not y['mod']:
                    continue
                px, py = x['p'], y['p']
                if px.fam() != py.fam() or (not px.fam() and (px.obj != py.obj or px.obj == 0)):
                    continue
                if px.path != py.path and not (px.path.startswith(py.path) or py.path.startswith(px.path)):
                    continue
                dis = Or(add(px.off, x['n']) <= py.off, add(py.off, y['n']) <= px.off, x['nc'], y['nc'])
                if px.fam():
                    dis = Or(px.obj != py.obj, dis)
                eng.oblige(st, 'pre', 'call of %s: %s and %s do not overlap' % (name, x['name'], y['name']), dis, ('C12',))
        c.old = st.copy()
        c.phase = 'post'
        # havoc
        for x in c.objs:
            self._havoc(eng, st, x)
        is_ec = self.returns_ec(eng)
        if is_ec or self.modifies_errors:
            for g in ERRG:
                if g in eng.prog.globals:
                    if g not in st.frames[0]:
                        eng.mk_global(st, g)
                    oid = st.frames[0][g]
                    o = st.heap[oid].copy(); o.c[(0, '')] = eng.fresh(o.elem, g, st); st.heap[oid] = o
                    eng.wrote(st, (oid, 0, ''))
        for g in self.globs:
            if g not in st.frames[0]:
                eng.mk_global(st, g)
            oid = st.frames[0][g]
            o = st.heap[oid].copy()
            for k in list(o.c):
                o.c[k] = eng.fresh(dict(leafs(o.elem))[k[1]], g, st)
                eng.wrote(st, (oid,) + k)
            st.heap[oid] = o
        rt = eng.prog.protos[name].ret
        outs = []
        base = st
        rv = None
        if rt.k != 'void':
            rv = eng.fresh(rt, name + '.ret', base)
        c.st = base; c.ret = rv
        if self.post is None:
            return [(Val(rt, rv), base)]
        for cname, guard, body in self.post(c):
            s = base.copy()
            c.st = s; c.ret = rv
            g = guard() if callable(guard) else guard
            s.assume(B(g), '%s outcome %s' % (name, cname))
            if is_ec:
                ok = eng.prog.enum_consts['SCC_ER_OK']
                s.assume(Imp(rv != ok, c.glob('iscc_error_code').f('') == rv))
            if not eng.feasible(s):
                continue
            if body is not None:
                try:
                    body()
                except Vacuous:
                    continue
            c.st.ghosts['@' + name] = c
            hook = getattr(eng.contract, 'after', {}).get(name) if saved_ctx is not None and not eng.collect else None
            if hook is not None:
                keep_st = saved_ctx.st; saved_ctx.st = c.st
                try:
                    hook(saved_ctx, cname)
                finally:
                    saved_ctx.st = keep_st
            if 'no memory' in cname:
                c.st.oom = True
            s.note('%s: outcome %s' % (name, cname))
            if c.ret is not None and isinstance(c.ret, (Ptr,)) and False:
                pass
            r = c.ret
            nv = num_of_eq(g, rv) if rv is not None and not isinstance(rv, Ptr) and rt.k == 'int' else None
            outs.append((Val(rt, I(nv) if nv is not None else r), c.st))
        eng.ctx = saved_ctx
        return outs

    def _havoc(self, eng, st, x):
        p, n, m, elem = x['p'], x['n'], x['mod'], x['elem']
        if not m or (isinstance(p.obj, int) and p.obj == 0):
            return
        if p.fam():
            key = eng.fam_key(elem); mem = eng.fam_get(st, key)
            a = z3.Select(mem, p.obj)
            b = eng.fresh_arr(elem, x['name'])
            k = z3.Int('k')
            st.assume(forall([k], Imp(Or(k < p.off, k >= add(p.off, n)), z3.Select(b, k) == z3.Select(a, k)), [z3.Select(b, k)]))
            st.fam[key] = z3.Store(mem, p.obj, b)
            eng.wrote(st, ('fam', key))
            return
        o = st.heap[p.obj].copy()
        if o.ro:
            eng.oblige(st, 'mem', 'read-only object passed for writing: ' + x['name'], F, ('C12',))
        if o.mode == 'S':
            i = num(p.off)
            lo = i; hi = i + (num(n) or 1)
            for q in m:
                full = (p.path + '.' + q if q else p.path) if p.path else q
                for i in range(lo, hi):
                    if (i, full) in o.c:
                        o.c[(i, full)] = eng.fresh(dict(leafs(o.elem))[full], o.name + '.' + full, st)
                        eng.wrote(st, (p.obj, i, full))
        else:
            for q in m:
                lt = dict(leafs(o.elem))[q]
                a = o.c[q]
                b = eng.fresh_arr(lt, o.name + ('.' + q if q else ''))
                k = z3.Int('k')
                if not (num(p.off) == 0 and I(n).eq(o.len)):
                    out = Or(k < p.off, k >= add(p.off, n))
                    if not is_false(x['nc']):
                        out = Or(out, x['nc'])
                    if isinstance(a, PA):
                        b = PA(a.target, b.objs, b.offs, b.nulls)
                        st.assume(forall([k], Imp(out, And(z3.Select(b.offs, k) == z3.Select(a.offs, k), z3.Select(b.nulls, k) == z3.Select(a.nulls, k), z3.Select(b.objs, k) == z3.Select(a.objs, k))), [z3.Select(b.offs, k), z3.Select(b.nulls, k)]))
                    else:
                        st.assume(forall([k], Imp(out, z3.Select(b, k) == z3.Select(a, k)), [z3.Select(b, k)]), 'frame')
                elif isinstance(a, PA):
                    b = PA(a.target, b.objs, b.offs, b.nulls)
                o.c[q] = b
                eng.wrote(st, (p.obj, q))
        st.heap[p.obj] = o

    # ------------------------------------------------------------ verification of the body
    def verify(self, eng):
        name = self.name
        eng.cur = name
        eng.contract = self
        eng.callpath = []
        fn = eng.prog.funcs[name]
        rt = eng.prog.protos[name].ret
        eng.curret = [rt]
        eng.ctx = None
        nloops = eng.number_loops(name)
        st = State()
        st.frames = [{}, {}]
        args = {}
        for pn, pt in eng.params(name):
            oid = eng.new_obj(st, pt, 1, 'local', pn)
            st.frames[-1][pn] = oid
            args[pn] = Val(pt, st.heap[oid].c[(0, '')] if pt.k != 'struct' else {q: st.heap[oid].c[(0, q)] for q, _ in leafs(pt)})
        c = Ctx(eng, self, name, args, st, 'verify')
        eng.ctx = c
        self.pre(c)
        if not eng.feasible(st):
            raise Unsupported('contradictory precondition of ' + name)
        c.pre_facts = list(st.pc)
        c.old = st.copy()
        if self.ghost:
            self.ghost(c)
        c.phase = 'post'
        for g in ERRG:
            if g in eng.prog.globals and g not in st.frames[0]:
                eng.mk_global(st, g)
        c.old.frames[0] = dict(st.frames[0])
        for g in st.frames[0].values():
            c.old.heap[g] = st.heap[g]
        outs = eng.ex(fn.body, st)
        nret = 0
        reach = False
        for k, s, v in outs:
            if k == 'normal' and rt.k != 'void':
                raise Unsupported('missing return')
            nret += 1
            self.check_exit(eng, c, s, v)
        eng.npaths += nret
        if nret == 0:
            raise Unsupported('no return path in ' + name)
        return dict(loops=nloops, paths=nret)

    def check_exit(self, eng, c, s, v):
        c.st = s
        c.ret = v.v if v is not None else None
        c.claimed = set(); c.freed_set = set(); c.realloc_ok = set()
        if self.post is not None:
            gs = []
            for cname, guard, body in list(self.post(c)):
                gs.append((cname, guard() if callable(guard) else guard, body))
            allg = Or(*[g for _, g, _ in gs])
            eng.oblige(s, 'post', 'outcome is one of the specified ones (%s)' % ', '.join(n for n, _, _ in gs), allg, self.props, assume=False)
            done = False
            for cname, g, body in gs:
                x = s.copy(); x.assume(B(g))
                if not eng.feasible(x):
                    continue
                c.st = x
                c.claimed = set(); c.freed_set = set(); c.realloc_ok = set()
                x.note('outcome ' + cname)
                self.exit_common(eng, c, x)
                try:
                    if body is not None:
                        body()
                except Vacuous:
                    pass
                self.frame(eng, c, x)
        else:
            self.exit_common(eng, c, s)
            self.frame(eng, c, s)

    def exit_common(self, eng, c, s):
        if self.returns_ec(eng):
            ok = eng.prog.enum_consts['SCC_ER_OK']
            eng.oblige(s, 'post', 'a returned error code is the recorded error', Imp(Not(eq(c.ret, I(ok))), eq(c.glob('iscc_error_code').f(''), c.ret)), ('C16',), assume=False)

    def frame(self, eng, c, s):
        # ownership: everything allocated here is handed over or released
        leaked = [o for o in s.new if s.heap[o].alive and o not in c.claimed and s.heap[o].kind == 'heap']
        eng.oblige(s, 'leak', 'no memory allocated by the call is lost', B(not leaked), ('C11', 'C12'), assume=False)
        for x in c.objs:
            p = x['p']
            if p.fam() or p.obj == 0 or x['elem'] is None:
                continue
            o0 = c.old.heap[p.obj]; o1 = s.heap[p.obj]
            if p.obj not in c.freed_set:
                eng.oblige(s, 'leak', 'caller object %s stays allocated' % x['name'], Or(B(o1.alive), x['nc']), ('C12', 'C11'), assume=False)
                if p.obj not in c.realloc_ok:
                    eng.oblige(s, 'mem', 'size of %s unchanged' % x['name'], eq(o0.len, o1.len), ('C12',), assume=False)
            else:
                continue
            for q, lt in leafs(x['elem']):
                if q in x['mod']:
                    continue
                if o0.mode == 'S':
                    for i in range(num(o0.len)):
                        a, b = o0.c[(i, q)], o1.c[(i, q)]
                        if a is b:
                            continue
                        if isinstance(a, Ptr):
                            f = B(False) if (a.poison or b.poison) and a is not b else eng.compare(s, '==', Val(lt, a), Val(lt, b)).v
                        else:
                            f = eq(a, b)
                        eng.oblige(s, 'frame', '%s->%s unchanged' % (x['name'], q), f, ('C12',), assume=False)
                else:
                    a, b = o0.c[q], o1.c[q]
                    if a is b or (isinstance(a, PA) and a.same(b)) or (not isinstance(a, PA) and a.eq(b)):
                        continue
                    k = z3.Int('k!fr%d' % uid())
                    if isinstance(a, PA):
                        f = And(z3.Select(a.offs, k) == z3.Select(b.offs, k), z3.Select(a.nulls, k) == z3.Select(b.nulls, k))
                    else:
                        f = z3.Select(a, k) == z3.Select(b, k)
                    eng.oblige(s, 'frame', '%s%s unchanged' % (x['name'], '.' + q if q else ''), forall([k], Imp(And(k >= 0, k < o0.len), f)), ('C12',), assume=False)
        # globals
        allowed = set(self.globs) | (set(ERRG) if self.returns_ec(eng) or self.modifies_errors else set())
        for g, oid in s.frames[0].items():
            if g in allowed or oid not in c.old.heap:
                o0 = c.old.heap.get(oid)
                if o0 is None:
                    continue
                if g in allowed:
                    continue
            o0 = c.old.heap[oid]; o1 = s.heap[oid]
            for k in o0.c:
                if o0.c[k] is not o1.c[k]:
                    if isinstance(o0.c[k], Ptr):
                        f = B(False)
                    else:
                        f = eq(o0.c[k], o1.c[k])
                    eng.oblige(s, 'frame', 'global %s unchanged' % g, f, ('C12',), assume=False)


def num_of_eq(g, rv):
    """if the guard contains rv == numeral return the numeral"""
    if not z3.is_expr(g):
        return None
    if z3.is_eq(g):
        a, b = g.arg(0), g.arg(1)
        if a.eq(rv) and num(b) is not None:
            return num(b)
        if b.eq(rv) and num(a) is not None:
            return num(a)
    if z3.is_and(g):
        for x in g.children():
            n = num_of_eq(x, rv)
            if n is not None:
                return n
    return None
