"""C25: structured objects, prefixes and matrix views stand for their matrix in expressions."""
import itertools
import casadi as cs
import numpy as np
import casadi_extras.structure3 as ce
import flavours as F
import refstruct as R
import refwrite as RW
from c01 import must_raise
from c05 import DS, PROD, dims, view
from decls import S, K, singles, pairs

BOUNDS = {
    'quick': '173 declarations (23 entry kinds, all pairs over 12 kinds, mixes, a group, an order) x 8 flavours, the object itself and every prefix of it (a part, a nested structure, a repeated entry), and 91 matrix views of 4 forms (DM, SX, MX): each of 37 casadi operations, conversions, concatenations and calls as the only, left or right operand; purely symbolic objects as input of functions, as variable of derivatives and substitutions; prefixes of several matrices are rejected; all histories of 5 operations (two writes through the object, two through prefixes, two expressions) on DM, SX and MX',
    'thorough': 'as quick',
}
DECL = singles(['scalar', 'vec3', 'mat23', 'row', 'sparse', 'lower', 'rep1', 'rep2', 'rep3v', 'rep22', 'rep23m', 'rep2sp', 'nest', 'nest2', 'nest22', 'nestsp', 'deep', 'deep2', 'shs', 'shs1', 'shsi', 'reprow', 'nestrow'])
MIX = [S(K('mat23', 'a'), K('nest2', 'b')), S(K('vec3', 'b'), K('rep22', 'a'), o=['a', 'b']), S((K('rep2', 'a'), K('rep3v', 'b')), K('sparse', 'c')),
       S(K('scalar', 'a'), K('scalar', 'b')), S(K('nest22', 'a'), K('row', 'b'), K('scalar', 'c')), S(K('symm', 'm'), K('scalar', 'a'))]
VIEWS = [[k, d, d, n] for d in DS for k, n in (('repeated', 1), ('repeated', 2), ('repeated', 3), ('squared', 1), ('squared_repeated', 1), ('squared_repeated', 2))]
VIEWS += [['product', a, b, 1] for a in PROD for b in PROD]


def ops(shape):
    """name -> operation on a matrix of this shape; T is the kind of matrix."""
    r, c = shape
    x = cs.MX.sym('x', r, c)
    f = cs.Function('f', [x], [2 * x + 1])
    g = cs.Function('g', [x], [cs.sum1(cs.sum2(x))])
    one = lambda a, b: cs.DM.ones(a, b)
    return {
        'sin': lambda m, T: cs.sin(m), 'cos': lambda m, T: cs.cos(m), 'sqrt': lambda m, T: cs.sqrt(m), 'fabs': lambda m, T: cs.fabs(m), 'tanh': lambda m, T: cs.tanh(m),
        'convert': lambda m, T: T(m), 'vec': lambda m, T: cs.vec(m), 'transpose': lambda m, T: cs.transpose(m), 'reshape': lambda m, T: cs.reshape(m, 1, r * c),
        'sum1': lambda m, T: cs.sum1(m), 'sum2': lambda m, T: cs.sum2(m), 'norm_fro': lambda m, T: cs.norm_fro(m), 'sumsqr': lambda m, T: cs.sumsqr(m), 'dot': lambda m, T: cs.dot(m, m),
        'repmat': lambda m, T: cs.repmat(m, 2, 3), 'horzcat': lambda m, T: cs.horzcat(m, m), 'vertcat': lambda m, T: cs.vertcat(m, m), 'veccat': lambda m, T: cs.veccat(m, m), 'diagcat': lambda m, T: cs.diagcat(m, m),
        'vertcat number': lambda m, T: cs.vertcat(cs.vec(m), 1.5), 'horzcat left': lambda m, T: cs.horzcat(T(one(r, 2)), m),
        'mtimes left': lambda m, T: cs.mtimes(m, one(c, 2)), 'mtimes right': lambda m, T: cs.mtimes(one(1, r), m), 'matmul': lambda m, T: one(1, r) @ m,
        'plus': lambda m, T: cs.plus(m, 1), 'minus': lambda m, T: cs.minus(2, m), 'times': lambda m, T: cs.times(m, 3), 'divide': lambda m, T: cs.rdivide(1, cs.plus(m, 5)), 'fmax': lambda m, T: cs.fmax(m, 0.5),
        'DM plus': lambda m, T: one(r, c) + m, 'T times': lambda m, T: T(one(r, c)) * m, 'if_else': lambda m, T: cs.if_else(m if r * c == 1 else 1, m, 0),
        'call': lambda m, T: f(m), 'call name': lambda m, T: f(i0=m)['o0'], 'call reduce': lambda m, T: g(m), 'call list': lambda m, T: f.call([m])[0],
        'kron': lambda m, T: cs.kron(m, one(1, 2)),
    }


def values(n):
    return [0.11 + 0.013 * (k * 7 % 101) for k in range(n)]


def scenarios(tier):
    out = []
    ds = DECL + MIX
    ds = ds + pairs(['scalar', 'vec3', 'mat23', 'row', 'sparse', 'rep2', 'rep3v', 'rep22', 'nest', 'nest2', 'nestsp', 'shs'])
    for d in ds:
        for fl in F.NAMES:
            if fl.startswith('struct_') and not F.expr_ok(d):
                continue
            out.append({'do': 'object', 'decl': d, 'fl': fl})
    for v in VIEWS:
        for fl in ('DM', 'SX', 'MX'):
            out.append({'do': 'view', 'form': v, 'fl': fl})
    for d in (MIX[0], MIX[1], MIX[2], MIX[4]):
        for fl in ('DM', 'SX', 'MX'):
            for k in range(6):
                out.append({'do': 'hist', 'decl': d, 'fl': fl, 'first': k, 'depth': 5})
    return out


def run(scn, ctx):
    globals()['run_' + scn['do']](scn, ctx)
    ctx.trace()


class Todo(object):
    """Results to be evaluated together."""

    def __init__(self, ctx, flavour, T):
        self.ctx, self.fl, self.T = ctx, flavour, T
        self.got, self.exp, self.what = [], [], []

    def add(self, got, exp, what):
        self.got.append(got)
        self.exp.append(exp)
        self.what.append(what)

    def flush(self):
        for v, e, w in zip(self.fl.eval([self.T(g) for g in self.got]), self.exp, self.what):
            self.ctx.expect(tuple(v.shape) == tuple(e.shape), lambda: '%s: shape %s instead of %s' % (w, v.shape, e.shape))
            self.ctx.expect(np.allclose(v.full(), e.full(), rtol=1e-12, atol=1e-12, equal_nan=True), lambda: '%s: %s instead of %s' % (w, v, e))
        self.got, self.exp, self.what = [], [], []


def apply_all(ctx, o, T, m, what, todo):
    """o stands for the matrix m (numeric)."""
    for n, f in ops(m.shape).items():
        ctx.step()
        exp = f(m, cs.DM)
        try:
            got = f(o, T)
        except Exception as e:
            ctx.fail('%s of %s raises %s' % (n, what, str(e)[:200]))
        ctx.expect(isinstance(got, T), lambda: '%s of %s is a %s' % (n, what, type(got).__name__))
        todo.add(got, cs.DM(exp), '%s of %s' % (n, what))
        ctx.state((what, n))


def flavour_type(fl):
    return cs.DM if fl == 'DM' else cs.SX if 'SX' in fl else cs.MX


def check_attrs(ctx, o, m, what):
    ctx.expect(tuple(o.shape) == tuple(m.shape), lambda: '%s has shape %s instead of %s' % (what, o.shape, m.shape))
    ctx.expect(o.sparsity() == m.sparsity(), lambda: '%s has sparsity %s' % (what, o.sparsity()))


def prefixes(ref):
    """(word, positions) of every prefix which denotes one matrix, and the words which denote several."""
    one, many = {}, set()
    for can, m in ref.slots:
        for k in range(1, len(can) + 1):
            w = can[:k]
            p = ref.read(list(w))
            if isinstance(p, cs.DM):
                if p.nnz():
                    one[w] = p
            else:
                many.add(w)
    return one, sorted(many, key=str)


def run_object(scn, ctx):
    ref = R.RStruct(scn['decl'])
    flat = values(ref.size)
    fl = F.build(scn['fl'], scn['decl'], ref, ce, flat)
    T = flavour_type(scn['fl'])
    todo = Todo(ctx, fl, T)
    col = cs.DM(flat)
    apply_all(ctx, fl.obj, T, col, 'the object', todo)
    check_attrs(ctx, fl.obj, col, 'the object')
    one, many = prefixes(ref)
    for w, p in one.items():
        m = R.values_of(p, flat)
        o = fl.obj.prefix[w]
        what = 'the prefix %s' % (w,)
        apply_all(ctx, o, T, m, what, todo)
        check_attrs(ctx, o, m, what)
        todo.add(o.T, m.T, 'T of ' + what)
        if T is cs.DM:
            ctx.expect(np.array_equal(np.array(o), m.full()), lambda: '%s as an array is %s' % (what, np.array(o)))
    for w in many:
        o = fl.obj.prefix[w]
        for n, f in (('sin', cs.sin), ('convert', T), ('vertcat', lambda q: cs.vertcat(q, 1))):
            must_raise(ctx, lambda: f(o), '%s of the prefix %s' % (n, w))
    todo.flush()
    if scn['fl'] in ('symSX', 'symMX'):
        run_symbol(ctx, fl.obj, ref, flat)


def run_symbol(ctx, s, ref, flat):
    n = ref.size
    v = cs.DM(flat)
    e = cs.sin(s)
    ctx.step(6)
    ev = lambda x: cs.DM(x).full()
    f = cs.Function('f', [s], [e, s])
    a, b = f(v)
    ctx.expect(np.allclose(ev(a), np.sin(v.full()), atol=1e-13) and np.array_equal(ev(b), v.full()), 'the object as input and output of a function: %s, %s' % (a, b))
    J = cs.Function('J', [s], [cs.jacobian(e, s)])(v)
    ctx.expect(np.allclose(ev(J), np.diag(np.cos(v.full()[:, 0])), atol=1e-13), 'jacobian %s' % J)
    G = cs.Function('G', [s], [cs.gradient(cs.sumsqr(s), s)])(v)
    ctx.expect(np.allclose(ev(G), 2 * v.full(), atol=1e-13), 'gradient %s' % G)
    sub = cs.substitute(e, s, v)
    sub = cs.Function('h', [], [sub])()['o0']
    ctx.expect(np.allclose(ev(sub), np.sin(v.full()), atol=1e-13), 'substitute %s' % sub)
    ctx.expect(cs.depends_on(e, s), 'depends_on')
    T = type(s.cat)
    other = T.sym('other', 2)
    ctx.expect(not cs.depends_on(cs.sin(other), s), 'depends_on')
    g = cs.Function('g', [other, s], [cs.vertcat(s, other)])
    r = g(cs.DM([1, 2]), v)
    ctx.expect(np.array_equal(ev(r), cs.vertcat(v, 1, 2).full()), 'a function of two arguments: %s' % r)
    nl = cs.Function('g', {'a': s, 'b': e}, ['a'], ['b'])
    ctx.expect(np.allclose(ev(nl(a=v)['b']), np.sin(v.full()), atol=1e-13), 'a function with names')


def run_view(scn, ctx):
    form = scn['form']
    r, c = dims(form)
    T = flavour_type(scn['fl'])
    m = cs.reshape(cs.DM(values(r * c)), r, c)
    x = T.sym('x', r, c) if T is not cs.DM else None
    v = view(form, T(m) if x is None else T(x))
    fl = F.Flavour(v, [] if x is None else [x], [] if x is None else [m], None)
    todo = Todo(ctx, fl, T)
    apply_all(ctx, v, T, m, 'the view', todo)
    check_attrs(ctx, v, m, 'the view')
    todo.add(v.T, m.T, 'T of the view')
    if T is cs.DM:
        ctx.expect(np.array_equal(np.array(v), m.full()), lambda: 'the view as an array is %s' % np.array(v))
    todo.flush()


def run_hist(scn, ctx):
    """Expressions made between writes see the values of their time."""
    decl = scn['decl']
    ref = R.RStruct(decl)
    T = flavour_type(scn['fl'])
    one, many = prefixes(ref)
    ws = sorted(one, key=lambda w: (len(w), str(w)))
    first, last = ws[0], ws[-1]
    slot = [c for c, m in ref.slots if m.sp.nnz()]
    opsn = ['wa', 'wb', 'pa', 'pb', 'whole', 'parts']
    base = R.real_struct(decl, ce, 'struct')
    flat0 = values(ref.size)
    x = T.sym('x', ref.size) if T is not cs.DM else None
    fl = F.Flavour(None, [] if x is None else [x], [] if x is None else [cs.DM(flat0)], None)
    todo = Todo(ctx, fl, T)
    for rest in itertools.product(range(len(opsn)), repeat=scn['depth'] - 1):
        path = (scn['first'],) + rest
        ctx.history = [opsn[k] for k in path]
        flat = list(flat0)
        s = base(cs.DM(flat) if x is None else T(x))
        pre = {w: s.prefix[w] for w in (first, last)}      # made once, used throughout
        for n, k in enumerate(path):
            ctx.step()
            op = opsn[k]
            val = 0.21 + n + 0.1 * k
            if op in ('wa', 'wb'):
                w = slot[0] if op == 'wa' else slot[-1]
                s[w] = val
                flat = RW.Writer(ref).write(flat, list(w), val)[0]
            elif op in ('pa', 'pb'):
                w = first if op == 'pa' else last
                p = one[w]
                tail = ()
                if w not in ref.pos:      # a nested structure: write its first entry
                    tail = [c[len(w):] for c in slot if c[:len(w)] == w][0]
                else:
                    tail = (p.sparsity().row()[0], p.sparsity().get_col()[0])
                pre[w][tail] = val
                flat = RW.Writer(ref).write(flat, list(w + tail), val)[0]
            elif op == 'whole':
                todo.add(cs.sin(s), cs.sin(cs.DM(flat)), 'sin of the object after %s' % (ctx.history[:n + 1],))
            else:
                for w in (first, last):
                    m = R.values_of(one[w], flat)
                    todo.add(cs.sin(pre[w]), cs.sin(m), 'sin of %s after %s' % (w, ctx.history[:n + 1]))
            ctx.state(tuple(flat))
        todo.add(T(s), cs.DM(flat), 'the object after %s' % (ctx.history,))
        for w in (first, last):
            todo.add(cs.vec(pre[w]), cs.vec(R.values_of(one[w], flat)), '%s after %s' % (w, ctx.history))
        ctx.trace()
        if len(todo.got) > 1500:
            todo.flush()
    todo.flush()
