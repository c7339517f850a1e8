#!/usr/bin/env python3
"""Mutation sweep: small syntactic changes of the library that still pass its tests, run
against the checks, to find out what the checks miss.

    mutate.py gen  OUT.json [--seed N] [--per-file N]     list mutants
    mutate.py test OUT.json [-j N]                        which pass the stable tests
    mutate.py check OUT.json [-j N] [--n N]               which of those the checks catch
    mutate.py show OUT.json                               survivors nobody caught
"""
import warnings; warnings.simplefilter("ignore")
import argparse, ast, json, os, random, shutil, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant

SCR = '/tmp/mut'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = 'brainstorm/'
FILES = {
    'layers/batch_normalization_layer.py': 'C02 C01 C04', 'layers/binomial_cross_entropy_layer.py': 'C02 C01 C22',
    'layers/clockwork_layer.py': 'C02 C01 C03', 'layers/clockwork_lstm_layer.py': 'C02 C01 C03',
    'layers/convolution_layer_2d.py': 'C02 C01 C20', 'layers/deltas_scaling_layer.py': 'C01 C02',
    'layers/dropout_layer.py': 'C02 C01', 'layers/elementwise_layer.py': 'C02 C01', 'layers/fully_connected_layer.py': 'C02 C01',
    'layers/highway_layer.py': 'C02 C01 C20', 'layers/input_layer.py': 'C20 C02', 'layers/l1_decay.py': 'C02 C01',
    'layers/l2_decay.py': 'C02 C01 C20', 'layers/loss_layer.py': 'C02 C01 C16 C27', 'layers/lstm_layer.py': 'C02 C01 C03',
    'layers/mask_layer.py': 'C02 C01 C22 C20', 'layers/merge_layer.py': 'C02 C01 C20', 'layers/noop_layer.py': 'C02 C01',
    'layers/pooling_layer_2d.py': 'C02 C01 C20', 'layers/recurrent_layer.py': 'C02 C01 C03',
    'layers/sigmoid_ce_layer.py': 'C02 C01 C22', 'layers/softmax_ce_layer.py': 'C02 C01 C22 C20',
    'layers/squared_difference_layer.py': 'C02 C01 C20', 'layers/squared_error_layer.py': 'C02 C01 C20',
    'layers/base_layer.py': 'C20 C02 C05 C27',
    'structure/architecture.py': 'C20', 'structure/buffer_structure.py': 'C05 C20 C27', 'structure/buffer_views.py': 'C05 C16',
    'structure/buffers.py': 'C04 C03 C05 C27', 'structure/construction.py': 'C20 C27', 'structure/layout.py': 'C05 C02 C27',
    'structure/network.py': 'C10 C15 C20 C06 C04', 'structure/view_references.py': 'C10 C15',
    'training/schedules.py': 'C23 C07', 'training/steppers.py': 'C12 C23', 'training/trainer.py': 'C13 C14 C07',
    'data_iterators.py': 'C08 C09 C11', 'describable.py': 'C07 C06', 'hooks.py': 'C14 C25 C07 C13',
    'initializers.py': 'C10 C11 C07', 'randomness.py': 'C11 C07', 'scorers.py': 'C16 C07', 'tools.py': 'C21 C16 C24',
    'utils.py': 'C07 C10 C20 C16', 'value_modifiers.py': 'C15 C07',
    'handlers/debug_handler.py': 'C19', 'handlers/numpy_handler.py': 'C18 C02 C01',
}
SKIP_FUN = {'__str__', '__repr__', 'draw_network', 'get_brainstorm_info', 'print_network_info', 'message', '__del__', '_setup_plot', '__init_subclass__'}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is',
       ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/', ast.Mod: '*', ast.Pow: '*'}


class Gen(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.split('\n')
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l) + 1)
        self.out = []
        self.fun = []

    def pos(self, l, c):
        return self.off[l - 1] + c

    def span(self, n):
        return self.pos(n.lineno, n.col_offset), self.pos(n.end_lineno, n.end_col_offset)

    def add(self, a, b, new, kind):
        if self.src[a:b] != new:
            self.out.append(dict(a=a, b=b, old=self.src[a:b], new=new, kind=kind, fun='.'.join(self.fun),
                                 line=self.src.count('\n', 0, a) + 1))

    def seg(self, n):
        a, b = self.span(n)
        return self.src[a:b]

    def visit_FunctionDef(self, n):
        if n.name in SKIP_FUN:
            return
        self.fun.append(n.name)
        for d in n.args.defaults:
            self.visit(d)
        body = n.body[1:] if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else n.body
        for s in body:
            self.visit(s)
        self.fun.pop()

    def visit_ClassDef(self, n):
        self.fun.append(n.name)
        for s in n.body:
            if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                self.visit(s)
        self.fun.pop()

    def visit_Import(self, n):
        pass
    visit_ImportFrom = visit_Import

    def visit_Raise(self, n):
        pass

    def visit_Assert(self, n):
        self.visit(n.test)
        a, b = self.span(n)
        self.add(a, b, 'pass', 'del-assert')

    def visit_Compare(self, n):
        if len(n.ops) == 1 and type(n.ops[0]) in CMP:
            a = self.span(n.left)[1]
            b = self.span(n.comparators[0])[0]
            old = self.src[a:b]
            import re
            tok = re.search(r'(<=|>=|==|!=|<|>|is\s+not|not\s+in|is|in)', old)
            if tok:
                self.add(a + tok.start(), a + tok.end(), CMP[type(n.ops[0])], 'cmp')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            a, b = self.span(n.left)[1], self.span(n.right)[0]
            import re
            tok = re.search(r'(\*\*|//|[-+*/%])', self.src[a:b])
            if tok:
                self.add(a + tok.start(), a + tok.end(), BIN[type(n.op)], 'bin')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        a, b = self.span(n.values[0])[1], self.span(n.values[1])[0]
        w = 'and' if isinstance(n.op, ast.And) else 'or'
        i = self.src[a:b].find(w)
        if i >= 0:
            self.add(a + i, a + i + len(w), 'or' if w == 'and' else 'and', 'bool')
        for v in n.values:   # drop one operand
            x, y = self.span(v)
            self.add(x, y, 'True' if w == 'and' else 'False', 'drop-operand')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        a, b = self.span(n)
        if isinstance(n.op, ast.USub):
            self.add(a, b, '(' + self.seg(n.operand) + ')', 'neg')
        elif isinstance(n.op, ast.Not):
            self.add(a, b, 'bool(' + self.seg(n.operand) + ')', 'not')
        self.generic_visit(n)

    def visit_Constant(self, n):
        a, b = self.span(n)
        if isinstance(n.value, bool):
            self.add(a, b, str(not n.value), 'const')
        elif isinstance(n.value, int):
            self.add(a, b, str(n.value + 1), 'const')
            if n.value > 0:
                self.add(a, b, str(n.value - 1), 'const')
        elif isinstance(n.value, float):
            self.add(a, b, repr(n.value + 1.), 'const')
            if n.value:
                self.add(a, b, repr(n.value * 0.5), 'const')

    def visit_If(self, n):
        a, b = self.span(n.test)
        self.add(a, b, 'True', 'if')
        self.add(a, b, 'False', 'if')
        self.generic_visit(n)

    def visit_IfExp(self, n):
        a, b = self.span(n.test)
        self.add(a, b, 'True', 'ifexp')
        self.add(a, b, 'False', 'ifexp')
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if isinstance(n.value, ast.Call):
            f = self.seg(n.value.func)
            if f in ('print',) or f.endswith('.message') or 'plt' in f:
                return
            a, b = self.span(n)
            self.add(a, b, 'pass', 'del-call')
        self.generic_visit(n)

    def visit_Call(self, n):
        f = self.seg(n.func)
        if f in ('print',) or f.endswith('.format') or f.endswith('.message') or f.endswith('Error'):
            return
        a, b = self.span(n)
        if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args[:2]):
            i, j = self.span(n.args[0])
            k, l = self.span(n.args[1])
            self.add(i, l, self.src[k:l] + self.src[j:k] + self.src[i:j], 'swap-args')
        for kw in n.keywords:
            if kw.arg and len(n.args) + len(n.keywords) > 1:
                x = kw.value.end_lineno, kw.value.end_col_offset
                i, j = self.pos(kw.value.lineno, kw.value.col_offset), self.pos(*x)
                i = self.src.rfind(kw.arg, 0, i)
                k = self.src.rfind(',', 0, i)
                if k > 0 and not self.src[k + 1:i].strip():
                    self.add(k, j, '', 'drop-kw')
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy',) and not n.args:
            self.add(a, b, self.seg(n.func.value), 'drop-copy')
        if isinstance(n.func, ast.Name) and n.func.id in ('sorted', 'list', 'dict', 'set', 'deepcopy', 'copy', 'abs', 'OrderedDict', 'float', 'int', 'tuple',
                                                       'reversed', 'max', 'min') and len(n.args) == 1:
            self.add(a, b, '(' + self.seg(n.args[0]) + ')', 'drop-fun')
        if f in ('min', 'max', 'any', 'all', 'np.any', 'np.all', 'np.max', 'np.min'):
            sw = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any'}
            w = f.split('.')[-1]
            i, j = self.span(n.func)
            self.add(j - len(w), j, sw[w], 'swap-fun')
        self.generic_visit(n)

    def visit_Assign(self, n):
        a, b = self.span(n)
        if self.fun and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            self.add(a, b, 'pass', 'del-assign')
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        a, b = self.span(n.target)[1], self.span(n.value)[0]
        sw = {'+=': '-=', '-=': '+=', '*=': '/=', '/=': '*=', '|=': '&=', '&=': '|='}
        op = self.src[a:b].strip()
        if op in sw:
            i = a + self.src[a:b].index(op)
            self.add(i, i + 2, sw[op], 'aug')
            self.add(i, i + 2, '=', 'aug')
        self.generic_visit(n)

    def visit_Slice(self, n):
        for x in (n.lower, n.upper):
            if x is not None:
                a, b = self.span(x)
                self.add(a, b, '', 'slice')
        self.generic_visit(n)

    def visit_Break(self, n):
        a, b = self.span(n)
        self.add(a, b, 'pass', 'break')

    def visit_Continue(self, n):
        a, b = self.span(n)
        self.add(a, b, 'pass', 'continue')

    def visit_Return(self, n):
        if n.value is not None:
            self.visit(n.value)


def original_lines(f):
    """numbers of the lines of /repo's f that come from the base commit"""
    out = subprocess.check_output(['git', '-C', '/repo', 'blame', '-s', '--abbrev=40', f], text=True)
    res = set()
    for i, l in enumerate(out.split('\n'), 1):
        if l and l.split()[0].lstrip('^')[:39] == plant.BASE[:39]:
            res.add(i)
    return res


def gen(args):
    rng = random.Random(args.seed)
    res = []
    for f in sorted(FILES):
        if args.files and f not in args.files:
            continue
        src = open('/repo/' + B + f).read()
        g = Gen(src)
        g.visit(ast.parse(src))
        ok = original_lines(B + f)
        ms = [m for m in g.out if all(k in ok for k in range(m['line'], m['line'] + m['old'].count('\n') + 1))]
        good = []
        for m in ms:
            new = src[:m['a']] + m['new'] + src[m['b']:]
            try:
                ast.parse(new)
            except SyntaxError:
                continue
            m['file'] = f
            good.append(m)
        rng.shuffle(good)
        n = min(len(good), max(args.per_file, int(len(src.split('\n')) * args.density)))
        print('%-45s %4d mutants, %d taken' % (f, len(good), n))
        res += good[:n]
    for i, m in enumerate(res):
        m['id'] = i
    json.dump(res, open(args.out, 'w'), indent=0)
    print(len(res))


def tree(k):
    t = '%s/w%d' % (SCR, k)
    if not os.path.exists(t):
        os.makedirs(SCR, exist_ok=True)
        subprocess.check_call(['cp', '-a', '/repo', t])
    return t


def workers(todo, j, fun, save):
    it = iter(todo)
    lock = threading.Lock()

    def loop(k):
        t = tree(k)
        while True:
            with lock:
                m = next(it, None)
            if m is None:
                return
            p = t + '/' + B + m['file']
            src = open('/repo/' + B + m['file']).read()
            open(p, 'w').write(src[:m['a']] + m['new'] + src[m['b']:])
            try:
                fun(t, m)
            except Exception as e:
                m['error'] = repr(e)
            finally:
                open(p, 'w').write(src)
            with lock:
                save()
    ts = [threading.Thread(target=loop, args=(k,)) for k in range(j)]
    [t.start() for t in ts]
    [t.join() for t in ts]


def test(args):
    ms = json.load(open(args.out))
    plant.build('/tmp/nothing') if 0 else None

    def fun(t, m):
        try:
            m['fails'] = len(plant.run_tests(t))
        except subprocess.TimeoutExpired:
            m['fails'] = 999
    workers([m for m in ms if 'fails' not in m], args.j, fun, lambda: json.dump(ms, open(args.out, 'w'), indent=0))
    print(sum(m.get('fails') == 0 for m in ms), 'of', len(ms), 'pass the tests')


def check(args):
    ms = json.load(open(args.out))
    todo = [m for m in ms if m.get('fails') == 0 and 'caught' not in m]
    random.Random(1).shuffle(todo)
    todo = todo[:args.n] if args.n else todo

    def fun(t, m):
        m['caught'], m['said'] = '', ''
        for c in FILES[m['file']].split():
            e = dict(os.environ, VERIF_REPO=t, VERIF_JOBS='2')
            try:
                p = subprocess.run([plant.PY, 'run.py', c, '--evidence', '/dev/null'] if 0 else [plant.PY, 'run.py', c], cwd=V, env=e, text=True, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, timeout=900)
                rc, out = p.returncode, p.stdout
            except subprocess.TimeoutExpired:
                rc, out = 2, 'timeout'
            if rc:
                m['caught'] += ' %s=%d' % (c, rc)
                m['said'] = out[-400:]
            if rc == 1:
                break
    workers(todo, args.j, fun, lambda: json.dump(ms, open(args.out, 'w'), indent=0))
    show(args)


def show(args):
    ms = json.load(open(args.out))
    done = [m for m in ms if 'caught' in m]
    print(len(ms), 'mutants', sum(m.get('fails') == 0 for m in ms), 'pass the tests', len(done), 'checked',
          sum('=1' in m['caught'] for m in done), 'caught')
    for m in sorted(done, key=lambda m: (m['file'], m['line'])):
        if '=1' not in m['caught']:
            print('%s:%d [%s] %s #%d %s\n      %r -> %r   %s' % (m['file'], m['line'], m['fun'], m['kind'], m['id'], m['caught'], m['old'][:150], m['new'][:150],
                                                        open('/repo/' + B + m['file']).read().split('\n')[m['line'] - 1].strip()[:120]))


if __name__ == '__main__':
    p = argparse.ArgumentParser()
    p.add_argument('cmd')
    p.add_argument('out')
    p.add_argument('--seed', type=int, default=1)
    p.add_argument('--per-file', type=int, default=12)
    p.add_argument('--density', type=float, default=0.12)
    p.add_argument('--files', nargs='*')
    p.add_argument('-j', type=int, default=8)
    p.add_argument('--n', type=int, default=0)
    a = p.parse_args()
    globals()[a.cmd](a)
