"""P25: equations given as text mean what their operator form means."""
import ast
import keyword
import operator
import re
import numpy as np
import geoms as G
import harness
import exprs as X
import probs

RULE = ("A case is (a) random expression trees over a geometry, each rendered as text in many equivalent ways (operator orders, parentheses, spacing, aliases and class names, partial sums named in the namespace, helper functions, numbers as literals or "
        "parameters, keyword order), given as 'w = TEXT' or 'dt(w) + ... = TEXT' to a problem whose right-hand side or solution is compared with the exact value; or (b) a problem of the catalogue whose text is rewritten equivalently and solved next to a twin "
        "built from operator objects by an independent interpreter. Non-trivial if values or matrices were compared.")
MIN = {'comparisons': 3000, 'texts': 1500, 'equations': 200, 'matrices': 300, 'steps': 80, 'solutions': 25, 'namespace_probes': 100}
BUDGET = {'quick': 200, 'thorough': 1500}
CASE_S = 60
GEOS = ['cart1', 'cart2', 'cart3', 'disk', 'annulus', 'sphere', 'ball', 'shell', 'cyl_disk', 'disk_cyl', 'cyl_annulus']


def cases(tier, rng):
    out = []
    for i in range(2 if tier == 'quick' else 24):
        for geo in GEOS:
            s = X.wide_spec(rng, geo, deg=3)
            if geo == 'ball':
                s['shape'][2] = max(s['shape'][2], s['shape'][1]//2 + 2)
            if 'dealias' in s:
                s['dealias'] = [max(1.25, x) for x in s['dealias']]
            out.append({'kind': 'expr', 'spec': s, 'i': i, 'trees': 20, 'ivp': bool((i + len(out)) % 2)})
    for i in range(3 if tier == 'quick' else 16):
        for k, f in enumerate(probs.names()):
            out.append({'kind': 'prob', 'spec': probs.random_spec(rng, f, small=True, real=bool((i + k) % 2)), 'i': i})
    for i in range(4 if tier == 'quick' else 20):
        out.append({'kind': 'names', 'i': i})
    return out


def run(case, ctx):
    {'expr': expressions, 'prob': problem, 'names': names}[case['kind']](case, ctx)


# Noise that cannot change the meaning of a text

TOKEN = re.compile(r'''("[^"]*"|'[^']*'|[^\W\d]\w*|(?:\d+\.\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|\d+(?:[eE][-+]?\d+)?)j?|\*\*|==|!=|<=|>=|//|\S)''')


def respace(text, rng):
    """Other white space between the same tokens (new lines only inside parentheses)."""
    toks = TOKEN.findall(text)
    out, depth = '', 0
    style = int(rng.integers(3))
    for i, t in enumerate(toks):
        if i:
            a, b = toks[i-1], t
            need = (re.match(r'\w', b) and re.match(r'.*\w$', a)) or (b == '.' and a[-1].isdigit())
            gap = ' ' if need else ''
            if style == 1:
                gap = ' '*int(rng.integers(0, 3)) or gap
            elif style == 2 and depth and rng.random() < 0.15:
                gap = '\n   '
            elif style == 2:
                gap = ' '
            if a == '.' or b == '.':
                gap = ''
            out += gap
        depth += {'(': 1, ')': -1, '[': 1, ']': -1}.get(t, 0)
        out += t
    return '  '*int(rng.integers(2)) + out + ' '*int(rng.integers(2))


class Speller:
    """Texts of expression trees, filling the namespace they need."""

    def __init__(self, ns, rng):
        self.ns, self.rng, self.n = ns, rng, 0
        self.used = set()

    def name(self, v, stem):
        self.n += 1
        k = f'{stem}{self.n}'
        self.ns[k] = v
        return k

    def number(self, m):
        c = eval(m.group(1), {'np': np})
        r = self.rng.random()
        if r < 0.4:
            return f'({m.group(1)})' if isinstance(c, complex) or c < 0 else repr(c)
        if r < 0.6:
            return self.name(c, 'par_')
        if r < 0.7 and not isinstance(c, complex):
            return f'({c!r})' if c == int(c) else f'{c:.17e}' if c > 0 else f'({c:.17e})'
        if r < 0.8 and not isinstance(c, complex):
            return f'(1 + {c - 1!r})' if (1 + (c - 1)) == c else f'({c!r})'
        if r < 0.9:
            return self.name((lambda c: lambda: c)(c), 'fun_') + '()'
        return self.name({'a': c}, 'dic_') + '["a"]'

    def spell(self, n):
        rng = self.rng
        if n.leaf:
            return n.leaf.key
        kids = [self.spell(k) for k in n.kids]
        atom = lambda t: t if re.fullmatch(r'[^\W\d]\w*', t) else f'({t})'
        fmts = [f for f in n.fmts]
        fmt = fmts[int(rng.integers(len(fmts)))]
        self.used.add((n.op, fmt.split('NUM')[0][:12]))
        call = re.match(r'[^\W\d]\w*\(', fmt)
        t = fmt.format(*[atom(k) if not call or rng.random() < 0.3 else k for k in kids])
        t = re.sub(r'NUM<(.*?)>(?![\d])', self.number, t)
        r = rng.random()
        if r < 0.06:
            return self.name(n.expr, 'sub_')           # prebuilt operand
        if r < 0.12 and len(kids) == 2 and 'NUM' not in fmt:
            f = eval('lambda ns: lambda A, B: ' + fmt.format('A', 'B'))(None) if False else self.helper(fmt, 2)
            return f"{f}({kids[0]}, {kids[1]})" if rng.random() < 0.5 else f"{f}(B={kids[1]}, A={kids[0]})"
        if r < 0.18 and len(kids) == 1 and 'NUM' not in fmt:
            f = self.helper(fmt, 1)
            return f"{f}({kids[0]})"
        if r < 0.24:
            return f'(({t}))'
        if r < 0.28:
            return f'(lambda Q: Q)({t})'
        return t

    def helper(self, fmt, k):
        """A user's function using the operators through d3."""
        import dedalus.public as d3
        env = {n: getattr(d3, n) for n in d3.__dict__ if not n.startswith('_')}
        env.update({n: self.ns[n] for n in self.ns if n not in ('A', 'B')})
        f = eval('lambda A, B=None: ' + fmt.format('A', 'B'), env)
        return self.name(f, 'helper_')


def full_field(g, n, name):
    """A field able to hold an expression."""
    e = n.expr
    bases = []
    for b in e.domain.bases:
        for x in g.bases:
            if b is x:
                bases.append(b)
                break
        else:
            if hasattr(b, 'clone_with') and hasattr(b, 'k'):
                bases.append(b.clone_with(k=0))
            else:
                for x in g.bases:
                    if type(x) is type(b) and x.coord == b.coord:
                        bases.append(x)
                        break
    return g.dist.TensorField((g.cs,)*n.rank, name=name, bases=tuple(bases))


def expressions(case, ctx):
    import dedalus.public as d3
    spec = case['spec']
    rng = ctx.rng(case['i'], str(spec))
    g = G.build(spec)
    B = X.Builder(g, rng, maxrank=2, pows=True)
    tol = {'annulus': 2e-5, 'shell': 2e-5, 'cyl_annulus': 2e-5}.get(g.name, 1e-8)
    for j in range(case['trees']):
        n = B.gen(int(rng.integers(0, 2)), depth=int(rng.integers(1, 5)))
        if not n.kids:
            continue
        if X.radial(n) and g.name in ('ball', 'shell'):
            continue
        want_T = n.ref(B.env)
        size = n.size(g, B.env, scales=g.dealias)
        nd = sum({'lap': 2, 'grad': 1, 'div': 1, 'curl': 1, 'deriv': 1}.get(k.op, 0) for k in n.nodes())
        t = tol*30**max(0, nd - 2)
        for k in range(4):
            ns = {lf.key: lf.field for lf in B.leaves}
            ns['coords'], ns['np'] = g.coords, np
            for c in g.coords:
                if g.name in G.CART:
                    ns['d' + c.name] = lambda A, c=c: d3.Differentiate(A, c)
            sp = Speller(ns, rng)
            text = sp.spell(n)
            w = full_field(g, n, 'w')
            ns['w0'] = w.copy() if case['ivp'] else None
            kind = 'ivp' if case['ivp'] and k % 2 else 'lbvp'
            left = ['w', '1*w', '(w)', '-(-w)', 'w/1', '2*w - w'][int(rng.integers(6))]
            if kind == 'ivp':
                left = ['dt(w)', 'dt( w )', '1*dt(w)', '-dt(-w)', 'dt(2*w)/2', 'TimeDerivative(w)', '0.5*dt(w) + dt(w)/2', 'dt(w) + 0*w'][int(rng.integers(8))]
            eq = respace(f"{left} = {text}", rng)
            what = f"{g.name}: {eq!r}"
            ctx.count('texts')
            P = d3.IVP([w], namespace=ns) if kind == 'ivp' else d3.LBVP([w], namespace=ns)
            P.add_equation(eq)
            # The definition must not follow later changes of the namespace
            if rng.random() < 0.3:
                for key in list(ns):
                    ns[key] = None
                ctx.count('namespace_probes')
            for u, m in sp.used:
                ctx.state('form', u, m)
            axes = tuple(i for i, b in enumerate(w.domain.full_bases) if b is not None)
            want = G.on_grid_sub(g, want_T, g.dealias, axes)
            sc = tuple(s if i in axes else 1 for i, s in enumerate(g.dealias))
            if k == 0 or kind == 'ivp':
                solver = P.build_solver(d3.RK111) if kind == 'ivp' else P.build_solver()
                if kind == 'ivp':
                    solver.step(1.)
                else:
                    solver.solve()
                out = w
            else:
                out = P.eqs[0]['F'].evaluate() if hasattr(P.eqs[0]['F'], 'evaluate') else P.eqs[0]['F']
                out = out.copy()
            out.change_scales(sc)
            err = np.max(np.abs(out['g'] - want), initial=0)
            ctx.count('comparisons')
            ctx.require(err <= t*size, 'text', f"{what}: off by {err:.3g} from the exact value (size {size:.3g})")
    ctx.state(g.name, str(g.dtype), case['ivp'])


# Problems: an independent interpreter, and equivalent rewritings

class Interp:
    """Operator objects of a text, built with operator classes (no overloaded arithmetic, no problem namespace)."""

    def __init__(self, ns, dist):
        import dedalus.public as d3
        from dedalus.core import arithmetic, operators
        self.ns, self.dist = ns, dist
        self.Add, self.Mul, self.Dot, self.Pow = arithmetic.Add, arithmetic.Multiply, arithmetic.DotProduct, operators.Power
        self.ops = {'dt': operators.TimeDerivative, 'grad': operators.Gradient, 'div': operators.Divergence, 'curl': operators.Curl, 'lap': operators.Laplacian, 'trace': operators.Trace,
                    'integ': operators.Integrate, 'trans': operators.TransposeComponents, 'lift': operators.Lift, 'ave': operators.Average, 'radial': operators.RadialComponent, 'angular': operators.AngularComponent, 'cross': arithmetic.CrossProduct,
                    'Interpolate': operators.Interpolate}
        self.ufuncs = {'sin': np.sin, 'cos': np.cos}
        self.ufun = operators.UnaryGridFunction

    def num(self, x):
        return isinstance(x, (int, float, complex, np.number))

    def neg(self, a):
        return -a if self.num(a) else self.Mul(-1, a)

    def add(self, a, b):
        if self.num(a) and self.num(b):
            return a + b
        if self.num(a) and a == 0:
            return b
        if self.num(b) and b == 0:
            return a
        return self.Add(a, b)

    def mul(self, a, b):
        if self.num(a) and self.num(b):
            return a*b
        return self.Mul(a, b)

    def __call__(self, node):
        if isinstance(node, str):
            node = ast.parse(node.strip(), mode='eval').body
        k = type(node).__name__
        if k == 'Constant':
            return node.value
        if k == 'Name':
            return self.ns[node.id]
        if k == 'UnaryOp':
            v = self(node.operand)
            return self.neg(v) if isinstance(node.op, ast.USub) else v
        if k == 'BinOp':
            a, b = self(node.left), self(node.right)
            o = type(node.op).__name__
            if o == 'Add':
                return self.add(a, b)
            if o == 'Sub':
                return self.add(a, self.neg(b))
            if o == 'Mult':
                return self.mul(a, b)
            if o == 'Div':
                return self.mul(a, 1/b)
            if o == 'MatMult':
                return self.Dot(a, b)
            if o == 'Pow':
                return a**b if self.num(a) else self.Pow(a, b)
        if k == 'Call':
            args = [self(a) for a in node.args]
            kws = {q.arg: self(q.value) for q in node.keywords}
            if isinstance(node.func, ast.Name) and node.func.id not in self.ns:
                f = node.func.id
                if f in self.ufuncs:
                    return self.ufun(self.ufuncs[f], *args)
                return self.ops[f](*args, **kws)
            f = self(node.func)
            if hasattr(f, 'domain'):
                for c, p in kws.items():
                    f = self.ops['Interpolate'](f, self.coord(f, c), p)
                return f
            return f(*args, **kws)
        raise harness.Inconclusive(f"interpreter: {ast.dump(node)[:80]}")

    def coord(self, f, name):
        for cs in self.dist.coordsystems:
            for c in cs.coords:
                if c.name == name:
                    return c


class Rewriter:
    """Equivalent texts of a text (sums and scalar products reordered, differences and quotients rephrased, parts named...)."""

    def __init__(self, interp, ns, rng, linear_names=()):
        self.I, self.ns, self.rng, self.n = interp, ns, rng, 0

    def name(self, v, stem):
        self.n += 1
        k = f'{stem}{self.n}'
        self.ns[k] = v
        return k

    def rank(self, node):
        v = self.I(node)
        return 0 if self.I.num(v) else len(v.tensorsig)

    def number(self, c):
        r = self.rng.random()
        if isinstance(c, int):
            return repr(c) if r < 0.5 else self.name(c, 'par_') if r < 0.7 else f'({c - 3} + 3)' if r < 0.85 else f'int("{c}")'
        if r < 0.5:
            return repr(c)
        if r < 0.7:
            return self.name(c, 'par_')
        if r < 0.8:
            return self.name(np.float64(c), 'par_')
        if r < 0.9:
            return f'({c - 0.25!r} + 0.25)' if (c - 0.25) + 0.25 == c else repr(c)
        return f'float("{c!r}")' if isinstance(c, float) else f'{c!r}.0' if isinstance(c, int) and abs(c) < 1e6 else repr(c)

    def __call__(self, node):
        rng = self.rng
        t = self.form(node)
        r = rng.random()
        if r < 0.1:
            return f'(({t}))'
        if r < 0.14:
            return f'-(-({t}))'
        if r < 0.18:
            return f'(lambda Z: Z)({t})'
        if r < 0.24 and isinstance(node, (ast.BinOp, ast.Call)) and not any(isinstance(x, ast.Name) and x.id == 'dt' for x in ast.walk(node)):
            return self.name(self.I(node), 'sub_')
        return t

    def form(self, node):
        rng = self.rng
        k = type(node).__name__
        if k == 'Constant':
            return self.number(node.value) if isinstance(node.value, (int, float)) else repr(node.value)
        if k == 'Name':
            v = self.ns.get(node.id)
            if self.I.num(v) and rng.random() < 0.3:
                return f'({v!r})' if isinstance(v, (int, float)) and not isinstance(v, np.number) else f'({complex(v)!r})' if isinstance(v, complex) else f'({float(v)!r})'
            return node.id
        if k == 'UnaryOp':
            a = self(node.operand)
            if isinstance(node.op, ast.USub):
                return [f'-({a})', f'(-1)*({a})', f'({a})*(-1)'][int(rng.integers(3))]
            return a
        if k == 'BinOp':
            o = type(node.op).__name__
            if o == 'Pow':
                return f'({self(node.left)})**{ast.unparse(node.right)}'
            a, b = self(node.left), self(node.right)
            if o == 'Add':
                return [f'({a}) + ({b})', f'({b}) + ({a})', f'({a}) - (-({b}))', f'{b} + ({a})', f'-(-({a}) - ({b}))'][int(rng.integers(5))]
            if o == 'Sub':
                return [f'({a}) - ({b})', f'-({b}) + ({a})', f'-(({b}) - ({a}))', f'({a}) + (-1)*({b})'][int(rng.integers(4))]
            if o == 'MatMult':
                return [f'({a}) @ ({b})', f'dot({a}, {b})', f'DotProduct({a}, {b})', f'({a})@({b})*1'][int(rng.integers(4))]
            if o == 'Div':
                return f'({a}) / ({b})'
            if o == 'Mult':
                forms = [f'({a}) * ({b})', f'({a})*({b})/1']
                if not (self.rank(node.left) and self.rank(node.right)):
                    forms += [f'({b})*({a})']*2
                return forms[int(rng.integers(len(forms)))]
        if k == 'Call':
            f = ast.unparse(node.func)
            args = [self(a) if not isinstance(a, ast.Constant) else ast.unparse(a) for a in node.args]
            if isinstance(node.func, ast.Name) and f not in self.ns:
                names = {'grad': 'Gradient', 'div': 'Divergence', 'lap': 'Laplacian', 'curl': 'Curl', 'trace': 'Trace', 'dt': 'TimeDerivative', 'integ': 'integ', 'trans': 'transpose', 'radial': 'radial', 'angular': 'angular',
                         'cross': 'CrossProduct', 'sin': 'np.sin', 'cos': 'np.cos'}
                if f in ('grad', 'div', 'lap', 'curl', 'trans', 'dt', 'radial', 'angular') and rng.random() < 0.2:
                    return f'-{f}(-({args[0]}))'
                f = f if rng.random() < 0.5 or f not in names else names[f]
            elif not isinstance(node.func, ast.Name) or (isinstance(node.func, ast.Name) and hasattr(self.ns.get(f), 'domain')):
                f = f'({self(node.func)})' if not isinstance(node.func, ast.Name) else f
            kws = [f'{q.arg}={self.point(q)}' for q in node.keywords]
            return f"{f}({', '.join(args + kws)})"
        raise harness.Inconclusive(f"rewriter: {k}")

    def point(self, q):
        v = self.I(q.value)
        if isinstance(v, str):
            return repr(v)
        return [ast.unparse(q.value), repr(float(v)), self.name(v, 'par_')][int(self.rng.integers(3))]


def condition(c, rng):
    if c == 'True':
        return c
    forms = [c, f'({c})', f'not (not ({c}))', f'({c}) and True', f'False or ({c})', respace(c, rng).strip()]
    return forms[int(rng.integers(len(forms)))]


def add(P, texts):
    for t, c in texts:
        if c == 'True':
            P.add_equation(t)
        else:
            P.add_equation(t, condition=c)
    return P


def problem(case, ctx):
    import dedalus.public as d3
    spec = case['spec']
    rng = ctx.rng(case['i'], str(spec))
    fam = probs.FAMILIES[spec['fam']]
    caps = fam['caps']
    kinds = [k for k in ('ivp', 'lbvp', 'evp') if k in caps]
    curl = spec['fam'] in ('annheat', 'shellconv')
    for kind in kinds:
        A, O = probs.build(spec), probs.build(spec)
        np_ns = dict(A.ns)
        np_ns['np'] = np
        I0 = Interp(A.ns, A.dist)
        R = Rewriter(I0, np_ns, rng)
        interp = Interp(O.ns, O.dist)
        if kind == 'evp':
            for q, m in ((A, np_ns), (O, O.ns)):
                q.lam = q.dist.Field(name='lam')
                m['lam'] = q.lam
            A.ns['lam'] = A.lam
            texts = [((f"lam*({M}) + {L}" if L else f"lam*({M})") + " = 0" if M else f"{L} = 0", c) for M, L, F, c in A.eqs]
        else:
            texts = A.ivp_texts() if kind == 'ivp' else A.lbvp_texts()
        kw = {}
        if kind == 'ivp' and 't' in A.ns:
            kw = {'time': A.ns['t']}, {'time': O.ns['t']}
        else:
            kw = {}, {}
        cls = {'ivp': d3.IVP, 'lbvp': d3.LBVP}.get(kind)
        if kind == 'evp':
            PA, PO = d3.EVP(A.vars, eigenvalue=A.lam, namespace=np_ns), d3.EVP(O.vars, eigenvalue=O.lam)
        else:
            PA, PO = cls(A.vars, namespace=np_ns, **kw[0]), cls(O.vars, **kw[1])
        if kind == 'ivp' and 't' not in A.ns:
            A.ns['t'], O.ns['t'] = PA.time, PO.time
            R.ns['t'] = PA.time
        shown = []
        for t, c in texts:
            l, r = t.split(' = ')
            lo, ro = interp(l), interp(r)
            new = respace(f"{R(ast.parse(l.strip(), mode='eval').body)} = {R(ast.parse(r.strip(), mode='eval').body)}", rng)
            cc = condition(c, rng)
            shown.append((new, cc))
            ctx.count('equations')
            add(PA, [(new, cc)])
            add(PO, [((lo, ro), c)])
        what = f"{spec['fam']} ({'real' if spec['real'] else 'complex'}) {kind} {shown}"
        ctx.state(spec['fam'], kind, spec['real'])
        solvers = []
        for q, P in ((A, PA), (O, PO)):
            q.set_initial()
            skw = dict(q.solver_kw)
            q.solver = P.build_solver(d3.RK222, **skw) if kind == 'ivp' else P.build_solver(**skw)
            q.solver.build_matrices(matrices=['L'] if kind == 'lbvp' else ['M', 'L'])
        # Matrices
        for sa, so in zip(A.solver.subproblems, O.solver.subproblems):
            ctx.require(sa.group == so.group, 'matrices', f"{what}: groups {sa.group} and {so.group}")
            for nm in (['L'] if kind == 'lbvp' else ['M', 'L']):
                x = (sa.pre_left.T @ getattr(sa, nm + '_min') @ sa.pre_right.T).toarray()
                y = (so.pre_left.T @ getattr(so, nm + '_min') @ so.pre_right.T).toarray()
                ctx.count('matrices')
                ctx.count('comparisons')
                if x.shape != y.shape:
                    ctx.violation('matrices', f"{what}: {nm} of group {sa.group} has shape {x.shape} instead of {y.shape}")
                    continue
                size = max(np.max(np.abs(y), initial=0), 1e-12)
                err = np.max(np.abs(x - y), initial=0)
                ctx.require(err <= 1e-10*size, 'matrices', f"{what}: {nm} of group {sa.group} off by {err:.3g} (size {size:.3g}) from operator objects")
        # Results
        if kind == 'evp':
            continue
        tol = 1e-5 if curl else 1e-7
        def compare(msg):
            ref = [np.array(v['c']) for v in O.vars]
            size = max([np.max(np.abs(r), initial=0) for r in ref] + [1e-12])
            for v, r in zip(A.vars, ref):
                err = np.max(np.abs(v['c'] - r), initial=0)
                ctx.count('comparisons')
                ctx.require(err <= (1e-2 if 'tau' in v.name else tol)*size, kind, f"{what}: {msg}: {v.name} off by {err:.3g} (size {size:.3g})")
        if kind == 'ivp':
            for k, dt in enumerate([0.003, 0.003, 0.002]):
                A.solver.step(dt)
                O.solver.step(dt)
                ctx.count('steps')
                compare(f'step {k+1}')
        else:
            A.solver.solve()
            O.solver.solve()
            ctx.count('solutions')
            compare('solution')


def names(case, ctx):
    """Resolution of names: variables first, then the given namespace, then Dedalus operators; at the time of definition."""
    import dedalus.public as d3
    from collections import ChainMap
    rng = ctx.rng(case['i'])
    c = d3.CartesianCoordinates('x', 'y')
    dtype = [np.float64, np.complex128][case['i'] % 2]
    dist = d3.Distributor(c, dtype=dtype)
    F = d3.RealFourier if dtype == np.float64 else d3.ComplexFourier
    xb, yb = F(c['x'], 8, (0, 2)), d3.Legendre(c['y'], 8, (0, 1))
    def field(name=None, bases=(xb, yb)):
        f = dist.Field(name=name, bases=bases)
        f.fill_random('c', seed=int(rng.integers(1 << 30)))
        f.low_pass_filter(scales=0.5)
        return f
    def solve(P, w):
        P.build_solver(entry_cutoff=0).solve()
        return np.array(w['c'])
    def check(w, P, want, what):
        got = solve(P, w)
        w.change_scales(1)
        got = np.array(w['g'])
        if hasattr(want, 'evaluate'):
            want = want.evaluate()
        want.change_scales(1)
        ref = np.array(want['g'])
        ctx.count('comparisons')
        ctx.count('namespace_probes')
        ctx.state('names', what)
        ctx.require(np.max(np.abs(got - ref)) <= 1e-10*max(1, np.max(np.abs(ref))), 'names', f"{what}: solution off by {np.max(np.abs(got - ref)):.3g}")
    a, b, e = field('a'), field('b'), field('e')
    # Variables shadow the namespace
    w = field('w')
    P = d3.LBVP([w], namespace={'w': a, 'a': b, 'b': a})
    P.add_equation("w = 3*a - b")
    check(w, P, 3*b - a, 'a variable hidden by a namespace entry of the same name')
    # The namespace shadows the operators
    w = field('w')
    P = d3.LBVP([w], namespace={'lap': lambda f: 5*f, 'a': a, 'grad': b, 'Multiply': lambda p, q: p + q})
    P.add_equation("w = lap(a) + grad + Multiply(a, grad)")
    check(w, P, 6*a + 2*b, 'user names equal to operator names')
    # Names of fields are irrelevant for anything but variables
    w = field('w')
    P = d3.LBVP([w], namespace={'b': a, 'other': b})
    P.add_equation("w = b + 2*other")
    check(w, P, a + 2*b, 'fields under names other than their own')
    # Changes between equations, between construction and definition, and after
    for kind in (lambda x: x, lambda x: ChainMap({}, x)):
        ns = {'a': a}
        m = kind(ns)
        u, w = field('u'), field('w')
        P = d3.LBVP([u, w], namespace=m)
        ns['q'] = 2.5
        ns['fn'] = lambda f: f + b
        P.add_equation("u = q*fn(a)")
        ns['q'] = -1.25
        ns['a'] = e
        P.add_equation("w = q*fn(a)")
        ns['q'] = 1e6
        ns['fn'] = None
        ns['a'] = None
        ns['u'] = None
        check(u, P, 2.5*(a + b), 'first equation before the namespace changed')
        check(w, P, -1.25*(e + b), 'second equation after the namespace changed')
    # locals(), functions, closures, comprehensions and attributes
    w = field('w')
    class Par:
        k = 0.1 + 0.2
        f = a
    par = Par()
    def user(f, p=2):
        return p*f + par.f
    vals = [0.1, 1/3, 2e-17, np.pi]
    P = d3.LBVP([w], namespace=locals())
    P.add_equation("w = user(b, p=par.k) + sum([v*e for v in vals]) + (par.f if len(vals) == 4 else b) + max(vals)*(lambda q=1: q*a)(q=vals[1])")
    check(w, P, (0.1+0.2)*b + 2*a + (0.1 + 1/3 + 2e-17 + np.pi)*e + (np.pi/3)*a, 'locals with functions, attributes, comprehensions, conditionals and keyword lambdas')
    # Full precision
    for x in (0.1 + 0.2, 1/3, 123456789.123456789, 1e-300*1e290, float(rng.standard_normal()), float(np.float32(1.1)), 2**53 + 1.0, 7):
        w = dist.Field(name='w')
        one = dist.Field()
        one['g'] = 1
        for txt, ns in ((f"w = {x!r}*one", {}), ("w = X*one", {'X': x}), ("w = one*X", {'X': np.float64(x)}), (f"w/{x!r} = one", {}), (f"{x!r}*w = one*{x!r}*({x!r})", {})):
            P = d3.LBVP([w], namespace=dict(ns, one=one))
            P.add_equation(txt)
            got = solve(P, w).ravel()[0]
            ctx.count('comparisons')
            ctx.require(abs(got - x) <= 4e-16*abs(x), 'precision', f"{txt!r} with {ns}: constant {got!r} instead of {x!r}")
    # Equals signs inside calls, and every kind of rejected text
    w = field('w')
    P = d3.LBVP([w], namespace={'a': a, 'f': lambda p, q=1, r=(1 == 1): q*p if r else None})
    P.add_equation("w = f(a, q=2, r=(3 == 3)) + a(x=0.5) + f(p=(a + (a)), q=(1))")
    ref = dist.Field(bases=(xb, yb))
    check(w, P, d3.Interpolate(a, c['x'], 0.5) + 4*a, 'equals signs inside calls')
    for bad in ("w", "w - a", "w = a = a", "w == a", "w = = a", "= a", "w =", "w = a +", "w = missing", "w = a) + (a", ""):
        P = d3.LBVP([field('w')], namespace={'a': a})
        n = len(P.eqs)
        ctx.raises(lambda: P.add_equation(bad), 'rejection', f"equation text {bad!r}")
        ctx.require(len(P.eqs) == n, 'rejection', f"a rejected equation {bad!r} was kept")
        ctx.count('namespace_probes')
    # Order of equations and variables, sign of equations
    u, v = field('u'), field('v')
    sols = []
    for k in range(4):
        order = [u, v] if k % 2 else [v, u]
        eqs = ["u + 2*v - 0.3*u = a", "v - 0.4*u = b*a"]
        if k >= 2:
            eqs = ["-0.7*u - 2*v = -a", "0.4*u - v = -(a*b)"][::-1]
        P = d3.LBVP(order, namespace={'a': a, 'b': b})
        for t in eqs:
            P.add_equation(t)
        P.build_solver().solve()
        sols.append([np.array(u['c']), np.array(v['c'])])
    for s in sols[1:]:
        for x, y in zip(s, sols[0]):
            ctx.count('comparisons')
            ctx.require(np.max(np.abs(x - y)) <= 1e-10*np.max(np.abs(y)), 'order', "solutions depend on the order or sign of the equations")
