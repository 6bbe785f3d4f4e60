"""C front end: configures a scratch copy of /repo, preprocesses the real sources
with the fake libc headers, parses them with pycparser and resolves C types.

What the extraction drops: comments, preprocessor conditionals that are off in the
release configuration (NDEBUG, no SCC_STABLE_*), the bodies of libc.  assert(e) is
kept as __vp_assert((_Bool)(e)), i.e. as a proof obligation."""
import os, re, shutil, subprocess, sys, tempfile
from pycparser import c_parser, c_ast

HERE = os.path.dirname(os.path.abspath(__file__))
CONFIGS = {
    'default': [],
    'wide': ['--with-clabel=uint64_t', '--with-pointindex=uint64_t', '--with-arcindex=uint64_t'],
    'int': ['--with-clabel=int', '--with-clabel-na=min', '--with-typelabel=int', '--with-pointindex=int', '--with-arcindex=uint32_t'],
}


class CType:
    __slots__ = ('k', 'bits', 'signed', 'to', 'n', 'name', 'fields', 'ret', 'params', 'const')

    def __init__(self, k, **kw):
        self.k = k
        for s in self.__slots__[1:]:
            setattr(self, s, kw.get(s))

    def __repr__(self):
        if self.k == 'int':
            return ('' if self.signed else 'u') + 'int%d' % self.bits
        if self.k in ('bool', 'double', 'void'):
            return self.k
        if self.k == 'ptr':
            return repr(self.to) + '*'
        if self.k == 'array':
            return repr(self.to) + '[]'
        if self.k == 'struct':
            return 'struct ' + str(self.name)
        return self.k

    def same(self, o):
        return repr(self) == repr(o)


BOOL = CType('bool'); VOID = CType('void'); DOUBLE = CType('double')
CHAR = CType('int', bits=8, signed=True); UCHAR = CType('int', bits=8, signed=False)
SHORT = CType('int', bits=16, signed=True); USHORT = CType('int', bits=16, signed=False)
INT = CType('int', bits=32, signed=True); UINT = CType('int', bits=32, signed=False)
LONG = CType('int', bits=64, signed=True); ULONG = CType('int', bits=64, signed=False)


def ptr(t):
    return CType('ptr', to=t)


BASE = {
    'void': VOID, '_Bool': BOOL, 'char': CHAR, 'signed char': CHAR, 'unsigned char': UCHAR, 'short': SHORT,
    'unsigned short': USHORT, 'short unsigned': USHORT, 'int': INT, 'unsigned int': UINT, 'unsigned': UINT, 'long': LONG, 'unsigned long': ULONG,
    'long int': LONG, 'unsigned long int': ULONG, 'long unsigned int': ULONG, 'long long': LONG,
    'unsigned long long': ULONG, 'double': DOUBLE, 'float': DOUBLE, 'signed int': INT, 'signed': INT,
}


class FrontError(Exception):
    pass


def prepare(config='default', repo='/repo'):
    """Configured scratch tree of /repo's current working tree. Returns its path (caller removes)."""
    base = tempfile.mkdtemp(prefix='vpsc_')
    src = os.path.join(base, 'src_tree'); out = os.path.join(base, 'out'); bindir = os.path.join(base, 'bin')
    for d in (src, out, bindir):
        os.makedirs(d)
    for f in ('configure', 'dist_info', 'LICENSE', 'README.md', 'doxyrefs.bib', 'examples', 'include', 'src', 'templates'):
        p = os.path.join(repo, f)
        if os.path.isdir(p):
            shutil.copytree(p, os.path.join(src, f), ignore=shutil.ignore_patterns('*.o', '*.out'))
        elif os.path.exists(p):
            shutil.copy2(p, os.path.join(src, f))
    for f in ('include/scclust.h', 'src/scclust_types.h'):
        p = os.path.join(src, f)
        if os.path.exists(p):
            os.remove(p)
    ed = os.path.join(bindir, 'ed')
    with open(ed, 'w') as fh:
        fh.write("#!/bin/sh\nsed 's/^q$/Q/' | /usr/bin/ed \"$@\"\n")
    os.chmod(ed, 0o755)
    env = dict(os.environ, PATH=bindir + ':' + os.environ['PATH'], LC_ALL='C.UTF-8')
    r = subprocess.run(['sh', '../src_tree/configure', '-q'] + CONFIGS[config], cwd=out, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0 or not os.path.exists(os.path.join(out, 'include/scclust.h')):
        raise FrontError('configure failed: ' + r.stdout.decode()[-2000:])
    return base


class Program:
    def __init__(self):
        self.funcs = {}      # name -> FuncDef
        self.files = {}      # name -> file
        self.protos = {}     # name -> CType func
        self.typedefs = {}
        self.structs = {}
        self.enums = {}
        self.enum_consts = {}
        self.globals = {}    # name -> (ctype, init ast, is_const)
        self.calls = {}
        self.sources = {}

    # ---- types
    def base_type(self, names):
        key = ' '.join(names)
        if key in self.typedefs:
            return self.typedefs[key]
        if key in BASE:
            return BASE[key]
        raise FrontError('unknown type ' + key)

    def ctype(self, node):
        t = type(node)
        if t is c_ast.TypeDecl:
            return self.ctype(node.type)
        if t is c_ast.IdentifierType:
            return self.base_type(node.names)
        if t is c_ast.PtrDecl:
            return ptr(self.ctype(node.type))
        if t is c_ast.ArrayDecl:
            return CType('array', to=self.ctype(node.type), n=node.dim)
        if t is c_ast.FuncDecl:
            ps = []
            if node.args:
                for p in node.args.params:
                    if isinstance(p, c_ast.EllipsisParam):
                        continue
                    ps.append(self.decay(self.ctype(p.type)))
            if len(ps) == 1 and ps[0].k == 'void':
                ps = []
            return CType('func', ret=self.ctype(node.type), params=ps)
        if t is c_ast.Struct:
            return self.struct(node)
        if t is c_ast.Enum:
            return self.enum(node)
        if t is c_ast.Typename or t is c_ast.Decl:
            return self.ctype(node.type)
        raise FrontError('type node ' + t.__name__)

    def decay(self, t):
        if t.k == 'array':
            return ptr(t.to)
        if t.k == 'func':
            return ptr(t)
        return t

    def struct(self, node):
        name = node.name or ('anon%d' % id(node))
        s = self.structs.get(name)
        if s is None:
            s = CType('struct', name=name); s.fields = None
            self.structs[name] = s
        if node.decls:
            fs = [(d.name, self.ctype(d.type)) for d in node.decls]
            s.fields = fs
        return s

    def enum(self, node):
        if node.values:
            v = 0
            for e in node.values.enumerators:
                if e.value is not None:
                    v = self.const_int(e.value)
                self.enum_consts[e.name] = v
                v += 1
        return UINT

    def const_int(self, e):
        if isinstance(e, c_ast.Constant):
            return int(re.sub('[uUlL]+$', '', e.value), 0)
        if isinstance(e, c_ast.UnaryOp) and e.op == '-':
            return -self.const_int(e.expr)
        raise FrontError('const expr')

    def sizeof(self, t):
        if t.k == 'int':
            return t.bits // 8
        if t.k == 'bool':
            return 1
        if t.k in ('double', 'ptr'):
            return 8
        if t.k == 'struct':
            off = 0; al = 1
            if t.fields is None:
                raise FrontError('sizeof incomplete ' + str(t.name))
            for _, ft in t.fields:
                a = self.align(ft); al = max(al, a)
                off = (off + a - 1) // a * a
                off += self.sizeof(ft)
            return (off + al - 1) // al * al
        raise FrontError('sizeof ' + repr(t))

    def align(self, t):
        if t.k == 'struct':
            return max(self.align(ft) for _, ft in t.fields)
        return self.sizeof(t)

    # ---- parsing
    def add_tu(self, path, text):
        ast = c_parser.CParser().parse(text, path)
        for ext in ast.ext:
            if isinstance(ext, c_ast.Typedef):
                self.typedefs[ext.name] = self.ctype(ext.type)
            elif isinstance(ext, c_ast.FuncDef):
                n = ext.decl.name
                self.funcs[n] = ext
                self.files[n] = ext.coord.file if ext.coord else path
                self.protos[n] = self.ctype(ext.decl.type)
            elif isinstance(ext, c_ast.Decl):
                t = self.ctype(ext.type)
                if t.k == 'func':
                    self.protos.setdefault(ext.name, t)
                elif ext.name:
                    is_const = 'const' in (ext.quals or []) and not isinstance(ext.type, c_ast.PtrDecl)
                    old = self.globals.get(ext.name)
                    if old is None or ext.init is not None:
                        self.globals[ext.name] = (t, ext.init, is_const, path)


def load(config='default', repo='/repo', base=None):
    own = base is None
    if own:
        base = prepare(config, repo)
    try:
        out = os.path.join(base, 'out')
        prog = Program()
        srcs = sorted(f for f in os.listdir(os.path.join(out, 'src')) if f.endswith('.c') and f != 'digraph_debug.c')
        for f in srcs:
            p = subprocess.run(['gcc', '-E', '-nostdinc', '-undef', '-std=c99', '-DNDEBUG', '-I', os.path.join(HERE, 'fakeinc'),
                                os.path.join('src', f)], cwd=out, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if p.returncode != 0:
                raise FrontError('preprocess %s: %s' % (f, p.stderr.decode()[-1500:]))
            try:
                prog.add_tu('src/' + f, p.stdout.decode())
            except FrontError:
                raise
            except Exception as e:
                raise FrontError('parse %s: %s' % (f, e))
        return prog
    finally:
        if own:
            shutil.rmtree(base, ignore_errors=True)


if __name__ == '__main__':
    p = load(sys.argv[1] if len(sys.argv) > 1 else 'default')
    print(len(p.funcs), sorted(p.funcs))
    print({k: (v.fields and [(a, repr(b)) for a, b in v.fields]) for k, v in p.structs.items()})
    print({k: (repr(v[0]), v[2]) for k, v in p.globals.items()})
