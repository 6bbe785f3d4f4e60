"""mutate.py FUNCTION...: sensitivity of a contract. Mutates the function's syntax tree (operators, constants, dropped
statements) and reports the mutants whose obligations are all still discharged.  Development tool; no check uses it."""
import sys, os, copy, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import cfront, run1, vc, contract, solve
from contracts.base import REG
from pycparser import c_ast, c_generator
SW = {'<': ['<=', '!='], '<=': ['<'], '>': ['>='], '>=': ['>'], '==': ['!='], '!=': ['=='], '+': ['-'], '-': ['+'], '*': ['+'], '/': ['*'], '&&': ['||'], '||': ['&&']}


def sites(fd):
    """list of (description, apply, undo)"""
    out = []
    gen = c_generator.CGenerator()

    def walk(n, parent):
        if isinstance(n, c_ast.FuncCall) and isinstance(n.name, c_ast.ID) and n.name.name == '__vp_assert':
            return
        if isinstance(n, c_ast.BinaryOp):
            for o in SW.get(n.op, []):
                out.append((n, 'op', n.op, o))
        if isinstance(n, c_ast.Constant) and n.type in ('int', 'unsigned int') and n.value.isdigit():
            out.append((n, 'value', n.value, str(int(n.value) + 1)))
            if n.value != '0':
                out.append((n, 'value', n.value, '0'))
        if isinstance(n, c_ast.UnaryOp) and n.op in ('p++', '++', '--', 'p--'):
            out.append((n, 'op', n.op, {'p++': 'p--', '++': '--', '--': '++', 'p--': 'p++'}[n.op]))
        if isinstance(n, c_ast.UnaryOp) and n.op == '!':
            out.append((n, 'op', '!', '+'))
        if isinstance(n, c_ast.Assignment) and n.op in ('+=', '-='):
            out.append((n, 'op', n.op, '-=' if n.op == '+=' else '+='))
        if isinstance(n, c_ast.Compound) and n.block_items:
            for i, s in enumerate(n.block_items):
                if isinstance(s, (c_ast.Assignment, c_ast.UnaryOp, c_ast.FuncCall, c_ast.If, c_ast.Continue, c_ast.Break)) and not (isinstance(s, c_ast.FuncCall) and s.name.name == '__vp_assert'):
                    out.append((n, i, s, c_ast.EmptyStatement()))
        for _, ch in n.children():
            walk(ch, n)
    walk(fd.body, None)
    return out


def setm(s, v):
    n, a = s[0], s[1]
    if isinstance(a, int):
        n.block_items[a] = v
    else:
        setattr(n, a, v)


PROG = None


def one(arg):
    name, fn, i = arg
    ss = sites(PROG.funcs[fn])
    s = ss[i]
    gen = c_generator.CGenerator()
    node = s[2] if isinstance(s[1], int) else s[0]
    before = gen.visit(node)
    setm(s, s[3])
    after = gen.visit(s[3]) if isinstance(s[1], int) else gen.visit(node)
    co = getattr(node, 'coord', None)
    d = '%s: %s  ->  %s' % (co.line if co else '?', before.split('\n')[0][:90], after.split('\n')[0][:90])
    try:
        obs = run1.verify(PROG, name, 4, False, None, 2)
        bad = [o for o in obs if o.status != 'ok']
        r = 'SURVIVED' if not bad else 'killed %s %s' % (bad[0].status, bad[0].name)
    except vc.Unsupported as e:
        r = 'killed unsupported %s' % e
    except Exception as e:
        r = 'killed ? %s' % e
    setm(s, s[2])
    return d, r


if __name__ == '__main__':
    run1.load_all()
    PROG = cfront.load()
    for name in sys.argv[1:]:
        fn = REG[name].fn
        n = len(sites(PROG.funcs[fn]))
        with mp.get_context('fork').Pool(int(os.environ.get("JOBS", "8"))) as p:
            rs = p.map(one, [(name, fn, i) for i in range(n)], 1)
        sv = [d for d, r in rs if r == 'SURVIVED']
        print('%s: %d mutants, %d survive' % (name, n, len(sv)))
        for d in sv:
            print('    ', d)
