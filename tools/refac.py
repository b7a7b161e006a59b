#!/usr/bin/env python3
"""Development aid: behaviour-preserving rewrites of the kernels, to see that the checks stay quiet.
refac.py OUTDIR T1,T2,... : copies /repo's sources to OUTDIR with the named rewrites applied everywhere they fit."""
import ast, copy, os, shutil, sys

FILES = None


def names(n, ctx):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}


def has(n, *ts, stop=()):
    """some node of a type, not looking into nested loops when stop says so"""
    todo = list(ast.iter_child_nodes(n))
    while todo:
        x = todo.pop()
        if isinstance(x, ts):
            return True
        if isinstance(x, stop):
            continue
        todo += ast.iter_child_nodes(x)
    return False


LOOPS = (ast.For, ast.While)


class Fresh:
    k = 0

    @classmethod
    def new(cls, p="t"):
        cls.k += 1
        return f"_{p}{cls.k}"


def nm(x, st=False):
    return ast.Name(x, ast.Store() if st else ast.Load())


def asg(x, v):
    return ast.Assign([nm(x, True)], v)


def load(t):
    t = copy.deepcopy(t)
    for x in ast.walk(t):
        if hasattr(x, "ctx"):
            x.ctx = ast.Load()
    return t


class Blocks(ast.NodeTransformer):
    """rewrite statement lists: stmt(s, rest) -> list of statements"""
    fn = None

    def visit_FunctionDef(self, n):
        if not njit(n):
            return n
        self.fn = n
        n.body = self.block(n.body)
        return n

    def block(self, b):
        out = []
        i = 0
        while i < len(b):
            s = b[i]
            for f in ("body", "orelse"):
                if isinstance(s, (ast.If, ast.For, ast.While)) and getattr(s, f):
                    setattr(s, f, self.block(getattr(s, f)))
            r = self.stmt(s, b[i + 1:])
            if isinstance(r, tuple):       # consumed the rest
                out += r[0]
                break
            out += r
            i += 1
        return out

    def stmt(self, s, rest):
        return [s]


EVERY = bool(os.environ.get("REFAC_ALL"))       # also rewrite ordinary functions and methods


def njit(n):
    if EVERY and not any("njit" in ast.unparse(d) for d in n.decorator_list):
        return not any("overload" in ast.unparse(d) for d in n.decorator_list)
    return not EVERY and any("njit" in ast.unparse(d) for d in n.decorator_list)


class Exprs(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        if njit(n):
            n.body = [self.visit(s) for s in n.body]
        return n


class aug(Blocks):
    def stmt(self, s, rest):
        if isinstance(s, ast.AugAssign) and not (isinstance(s.target, ast.Subscript) and isinstance(s.target.slice, ast.Slice)):
            return [ast.Assign([s.target], ast.BinOp(load(s.target), s.op, s.value))]
        return [s]


class flipcmp(Exprs):
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M:
            return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left])
        return n


class ifswap(Blocks):
    def stmt(self, s, rest):
        if isinstance(s, ast.If) and s.orelse:
            return [ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)]
        return [s]


class detern(Blocks):
    def stmt(self, s, rest):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
            v = s.value
            return [ast.If(v.test, [ast.Assign(s.targets, v.body)], [ast.Assign(copy.deepcopy(s.targets), v.orelse)])]
        return [s]


class tern(Blocks):
    def stmt(self, s, rest):
        if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and all(isinstance(x, ast.Assign) for x in s.body + s.orelse) \
                and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]):
            return [ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))]
        return [s]


def rng(s):
    if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" \
            and isinstance(s.target, ast.Name) and not s.orelse and len(s.iter.args) < 3:
        a = s.iter.args
        return (ast.Constant(0), a[0]) if len(a) == 1 else (a[0], a[1])


class towhile(Blocks):
    def stmt(self, s, rest):
        r = rng(s)
        if r and not any(has(x, ast.Continue, stop=LOOPS) or isinstance(x, ast.Continue) for x in s.body) and not any(s.target.id in names(x, ast.Load) for x in rest):
            i, h = s.target.id, Fresh.new("hi")
            return [asg(i, r[0]), asg(h, r[1]), ast.While(ast.Compare(nm(i), [ast.Lt()], [nm(h)]), s.body + [ast.AugAssign(nm(i, True), ast.Add(), ast.Constant(1))], [])]
        return [s]


class whiletrue(towhile):
    def stmt(self, s, rest):
        r = super().stmt(s, rest)
        w = r[-1]
        if isinstance(w, ast.While) and not has(w, ast.Continue, stop=LOOPS):
            w.body = [ast.If(ast.UnaryOp(ast.Not(), w.test), [ast.Break()], [])] + w.body
            w.test = ast.Constant(True)
        return r


class contnest(Blocks):
    def block(self, b):
        b = super().block(b)
        return b

    def stmt(self, s, rest):
        if isinstance(s, ast.If) and s.body and isinstance(s.body[-1], ast.Continue) and not s.orelse and rest:
            body = s.body[:-1]
            r = self.block(rest)
            if body:
                return ([ast.If(s.test, body, r)],)
            return ([ast.If(ast.UnaryOp(ast.Not(), s.test), r, [])],)
        return [s]


class shift(Blocks):
    def stmt(self, s, rest):
        r = rng(s)
        if r and not (isinstance(r[0], ast.Constant) and r[0].value == 0):
            k = Fresh.new("k")
            return [ast.For(nm(k, True), ast.Call(nm("range"), [ast.BinOp(r[1], ast.Sub(), r[0])], []),
                            [asg(s.target.id, ast.BinOp(copy.deepcopy(r[0]), ast.Add(), nm(k)))] + s.body, [])] \
                if not (names(r[0], ast.Load) & set().union(*[names(x, ast.Store) for x in s.body])) else [s]
        return [s]


class temps(Blocks):
    def stmt(self, s, rest):
        if isinstance(s, (ast.Assign, ast.AugAssign)) and isinstance(s.value, ast.BinOp):
            out = []
            for f in ("left", "right"):
                e = getattr(s.value, f)
                if isinstance(e, (ast.BinOp, ast.Call, ast.Subscript)):
                    t = Fresh.new()
                    out.append(asg(t, e))
                    setattr(s.value, f, nm(t))
            return out + [s]
        return [s]


class helper(Blocks):
    """extract right-hand sides into functions"""
    def stmt(self, s, rest):
        if isinstance(s, (ast.Assign, ast.AugAssign)) and isinstance(s.value, (ast.BinOp, ast.Compare, ast.BoolOp, ast.IfExp)):
            loc = names(self.fn, ast.Store) | {a.arg for a in self.fn.args.args + self.fn.args.kwonlyargs + self.fn.args.posonlyargs}
            fr = []
            for x in ast.walk(s.value):
                if isinstance(x, ast.Name) and x.id in loc and x.id not in fr:
                    fr.append(x.id)
            if len(fr) >= 1 and not has(s.value, ast.ListComp, ast.GeneratorExp):
                h = Fresh.new("helper")
                f = ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in fr], None, [], [], None, []), [ast.Return(s.value)],
                                    [] if EVERY else [ast.parse("njit(nogil=True)", mode="eval").body], None, None)
                f.type_params = []
                self.new.append((self.fn.name, f))
                s.value = ast.Call(nm(h), [nm(x) for x in fr], [])
        return [s]


class loophelper(Blocks):
    """extract loops into functions"""
    depth = 0
    inner = True

    def block(self, b):
        self.depth += 1
        r = super().block(b)
        self.depth -= 1
        return r

    def stmt(self, s, rest):
        if not isinstance(s, LOOPS) or (self.depth < 2) == self.inner or "prange" in ast.dump(s) or has(s, ast.Return, ast.Raise, ast.Yield):
            return [s]
        if any(isinstance(x, (ast.Break, ast.Continue)) for x in s.body) and False:
            return [s]
        args = {a.arg for a in self.fn.args.args}
        loc = names(self.fn, ast.Store) | args
        rd, wr = names(s, ast.Load), names(s, ast.Store)
        # a variable written before the loop, in it or only in it
        before = set(args)
        for x in ast.walk(self.fn):
            if x is s:
                continue
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                before.add(x.id)
        onlyin = {x for x in wr if sum(isinstance(q, ast.Name) and q.id == x for q in ast.walk(self.fn)) == sum(isinstance(q, ast.Name) and q.id == x for q in ast.walk(s))}
        ins = sorted((rd | wr) & loc - onlyin)
        outs = sorted(wr - onlyin)
        tgt = names(s.target, ast.Store) if isinstance(s, ast.For) else set()
        if tgt & set(outs):
            # loop variables reused elsewhere: local to the helper
            outs = [o for o in outs if o not in tgt]
            ins = [o for o in ins if o not in tgt]
        # variables assigned at top of loop body only are locals
        first = set()
        for q in s.body:
            if isinstance(q, ast.Assign) and isinstance(q.targets[0], ast.Name):
                v = q.targets[0].id
                if v not in names(q.value, ast.Load):
                    first.add(v)
            else:
                break
        ins = [x for x in ins if x not in first]
        if any(x in self.uninit(s) for x in ins):
            return [s]
        h = Fresh.new("loop")
        ret = ast.Return(nm(outs[0]) if len(outs) == 1 else ast.Tuple([nm(o) for o in outs], ast.Load()))
        f = ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in ins], None, [], [], None, []), [s] + ([ret] if outs else []),
                            [] if EVERY else [ast.parse("njit(nogil=True)", mode="eval").body], None, None)
        f.type_params = []
        self.new.append((self.fn.name, f))
        call = ast.Call(nm(h), [nm(x) for x in ins], [])
        if not outs:
            return [ast.Expr(call)]
        return [ast.Assign([nm(outs[0], True) if len(outs) == 1 else ast.Tuple([nm(o, True) for o in outs], ast.Store())], call)]

    def uninit(self, s):
        """names whose first occurrence in the function (textually) is inside the loop"""
        seen, r = {a.arg for a in self.fn.args.args}, set()

        def walk(n):
            if n is s:
                raise StopIteration
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                seen.add(n.id)
            for c in ast.iter_child_nodes(n):
                walk(c)
        try:
            walk(self.fn)
        except (StopIteration, RuntimeError):
            pass
        return names(s, ast.Load) | names(s, ast.Store) - seen if False else (names(s, ast.Store) - seen)


class outerhelper(loophelper):
    inner = False


class full(Blocks):
    def stmt(self, s, rest):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func) in ("np.full", "np.zeros") and isinstance(s.targets[0], ast.Name):
            c = s.value
            z = ast.unparse(c.func) == "np.zeros"
            v = ast.Constant(0) if z else c.args[1]
            a = ast.Call(ast.Attribute(nm("np"), "empty", ast.Load()), [c.args[0]] + (c.args[1:] if z else c.args[2:]), c.keywords)
            return [ast.Assign(s.targets, a), ast.Assign([ast.Subscript(nm(s.targets[0].id), ast.Slice(None, None, None), ast.Store())], v)]
        return [s]


class fill(full):
    def stmt(self, s, rest):
        r = super().stmt(s, rest)
        if len(r) == 2:
            return [r[0], ast.Expr(ast.Call(ast.Attribute(nm(s.targets[0].id), "fill", ast.Load()), [r[1].value], []))]
        return r


class rename(Exprs):
    def visit_FunctionDef(self, n):
        if not njit(n):
            return n
        loc = names(n, ast.Store) - {a.arg for a in n.args.args}
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id += "_r"
        return n


class reorder(Blocks):
    def block(self, b):
        b = super().block(b)
        i = 0
        while i + 1 < len(b):
            s, t = b[i], b[i + 1]
            if all(isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) for x in (s, t)) and \
                    not (names(s, ast.Store) & (names(t, ast.Load) | names(t, ast.Store))) and not (names(t, ast.Store) & names(s, ast.Load)) \
                    and not has(s, ast.Call) :
                b[i], b[i + 1] = t, s
                i += 2
                continue
            if all(isinstance(x, ast.AugAssign) for x in (s, t)) and ast.unparse(s.target) not in ast.unparse(t) and ast.unparse(t.target) not in ast.unparse(s):
                b[i], b[i + 1] = t, s
                i += 2
                continue
            if all(isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Subscript) and isinstance(x.value, (ast.Name, ast.Constant)) for x in (s, t)) and \
                    ast.unparse(s.targets[0].value) != ast.unparse(t.targets[0].value):
                b[i], b[i + 1] = t, s
                i += 2
                continue
            i += 1
        return b


class demorgan(Exprs):
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        o = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        return ast.UnaryOp(ast.Not(), ast.BoolOp(o, [ast.UnaryOp(ast.Not(), v) for v in n.values]))


class maxif(Exprs):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ("max", "min") and len(n.args) == 2 and not n.keywords:
            a, b = n.args
            return ast.IfExp(ast.Compare(b, [ast.Gt() if n.func.id == "max" else ast.Lt()], [a]), copy.deepcopy(b), copy.deepcopy(a))
        return n


class foreach(Blocks):
    def stmt(self, s, rest):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Name) and isinstance(s.target, ast.Name):
            i = Fresh.new("i")
            return [ast.For(nm(i, True), ast.parse(f"range(len({s.iter.id}))", mode="eval").body,
                            [asg(s.target.id, ast.Subscript(nm(s.iter.id), nm(i), ast.Load()))] + s.body, s.orelse)]
        return [s]


class algebra(Exprs):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, (ast.Name, ast.Subscript)):
            return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
        if isinstance(n.op, ast.Add) and not has(n, ast.List, ast.Tuple, ast.Constant):
            return ast.BinOp(n.right, ast.Add(), n.left)
        if isinstance(n.op, ast.Mult):
            return ast.BinOp(n.right, ast.Mult(), n.left)
        if isinstance(n.op, ast.Sub) and not isinstance(n.right, ast.Constant):
            return ast.BinOp(ast.UnaryOp(ast.USub(), n.right), ast.Add(), n.left)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        u = ast.unparse(n.func)
        if u == "np.sum" and len(n.args) == 1 and not n.keywords:
            return ast.Call(ast.Attribute(n.args[0], "sum", ast.Load()), [], [])
        if u == "np.mean" and len(n.args) == 1 and not n.keywords:
            return ast.BinOp(ast.Call(ast.parse("np.sum", mode="eval").body, n.args, []), ast.Div(), ast.Call(nm("len"), copy.deepcopy(n.args), []))
        if u == "np.sqrt":
            return ast.BinOp(n.args[0], ast.Pow(), ast.Constant(0.5))
        if u in ("np.isnan",) and isinstance(n.args[0], (ast.Name, ast.Subscript)):
            return ast.Compare(n.args[0], [ast.NotEq()], [copy.deepcopy(n.args[0])])
        if u == "np.log" and isinstance(n.args[0], ast.BinOp) and isinstance(n.args[0].op, ast.Div):
            f = lambda x: ast.Call(ast.parse("np.log", mode="eval").body, [x], [])
            return ast.BinOp(f(n.args[0].left), ast.Sub(), f(n.args[0].right))
        return n


class breakflag(Blocks):
    """for ... if c: ...; break -> flag checked at the loop head"""
    def stmt(self, s, rest):
        r = rng(s)
        if r and any(isinstance(x, ast.If) and isinstance(x.body[-1], ast.Break) for x in s.body) and sum(isinstance(x, ast.Break) for x in ast.walk(s)) == 1 \
                and isinstance(s.body[-1], ast.If) and isinstance(s.body[-1].body[-1], ast.Break) and not s.body[-1].orelse \
                and not any(s.target.id in names(x, ast.Load) for x in rest) and not has(s, ast.Continue):
            d, i, h = Fresh.new("done"), s.target.id, Fresh.new("hi")
            s.body[-1].body[-1] = asg(d, ast.Constant(True))
            return [asg(d, ast.Constant(False)), asg(i, r[0]), asg(h, r[1]),
                    ast.While(ast.BoolOp(ast.And(), [ast.UnaryOp(ast.Not(), nm(d)), ast.Compare(nm(i), [ast.Lt()], [nm(h)])]),
                              s.body + [ast.AugAssign(nm(i, True), ast.Add(), ast.Constant(1))], [])]
        return [s]


class alias(Blocks):
    """name the row at hand: x[i] read several times in a loop body where x is a parameter never stored to"""
    def stmt(self, s, rest):
        if not isinstance(s, ast.For) or not isinstance(s.target, ast.Name):
            return [s]
        i = s.target.id
        par = {a.arg for a in self.fn.args.args} - names(self.fn, ast.Store)
        stored = {ast.unparse(x.value) for x in ast.walk(self.fn) if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store)}
        use = {}
        for x in ast.walk(s):
            if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and isinstance(x.slice, ast.Name) and x.slice.id == i and x.value.id in par and x.value.id not in stored:
                use[x.value.id] = 1
        if i in set().union(*[names(b, ast.Store) for b in s.body]):
            return [s]
        pre = []
        for a in use:
            t = Fresh.new(a)
            pre.append(asg(t, ast.Subscript(nm(a), nm(i), ast.Load())))

            class R(ast.NodeTransformer):
                def visit_Subscript(self, x):
                    self.generic_visit(x)
                    if isinstance(x.value, ast.Name) and x.value.id == a and isinstance(x.slice, ast.Name) and x.slice.id == i and isinstance(x.ctx, ast.Load):
                        return nm(t)
                    return x
            s.body = [R().visit(b) for b in s.body]
        s.body = pre + s.body
        return [s]


class nop(Blocks):
    def stmt(self, s, rest):
        return [s, ast.Pass()]


# ---- for ordinary functions (REFAC_ALL=1)
class retvar(Blocks):
    def stmt(self, s, rest):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            v = f"outcome_{Fresh.k}"
            Fresh.k += 1
            return [asg(v, s.value), ast.Return(nm(v))]
        return [s]


class earlyret(Blocks):
    """if c: return a else: return b  ->  if c: return a; return b"""

    def stmt(self, s, rest):
        if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
            return [ast.If(s.test, s.body, []), *s.orelse]
        return [s]


class elseret(Blocks):
    """if c: return a; rest  ->  if c: return a else: rest"""

    def stmt(self, s, rest):
        if isinstance(s, ast.If) and not s.orelse and rest and isinstance(s.body[-1], (ast.Return, ast.Raise)):
            return ([ast.If(s.test, s.body, self.block(list(rest)))],)
        return [s]


class fstr(Exprs):
    """f"{a}x{b}" -> "{}x{}".format(a, b)"""

    def visit_JoinedStr(self, n):
        if any(isinstance(v, ast.FormattedValue) and (v.format_spec is not None or v.conversion != -1) for v in n.values):
            return n
        t, a = "", []
        for v in n.values:
            if isinstance(v, ast.Constant):
                t += v.value.replace("{", "{{").replace("}", "}}")
            else:
                t += "{}"
                a.append(self.visit(v.value))
        return ast.Call(ast.Attribute(ast.Constant(t), "format", ast.Load()), a, [])


class fcat(Exprs):
    """f"{a}x{b}" -> str(a) + "x" + str(b)"""

    def visit_JoinedStr(self, n):
        if any(isinstance(v, ast.FormattedValue) and (v.format_spec is not None or v.conversion != -1) for v in n.values):
            return n
        ps = [v if isinstance(v, ast.Constant) else ast.Call(nm("str"), [self.visit(v.value)], []) for v in n.values]
        r = ps[0] if ps else ast.Constant("")
        for q in ps[1:]:
            r = ast.BinOp(r, ast.Add(), q)
        return r


class compr(Blocks):
    """x = [e for t in it if c] -> loop with append"""

    def stmt(self, s, rest):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1:
            g = s.value.generators[0]
            v = f"found_{Fresh.k}"
            Fresh.k += 1
            b = [ast.Expr(ast.Call(ast.Attribute(nm(v), "append", ast.Load()), [s.value.elt], []))]
            for c in reversed(g.ifs):
                b = [ast.If(c, b, [])]
            return [asg(v, ast.List([], ast.Load())), ast.For(g.target, g.iter, b, []), asg(s.targets[0].id, nm(v))]
        return [s]


class argtemp(Blocks):
    """f(g(x)) -> t = g(x); f(t) for simple statements"""

    def stmt(self, s, rest):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.Call) and not any(isinstance(x, (ast.Lambda, ast.Await, ast.NamedExpr)) for x in ast.walk(s.value)):
            pre = []
            new = []
            pure = isinstance(s.value.func, (ast.Name, ast.Attribute)) and not any(isinstance(x, ast.Call) for x in ast.walk(s.value.func))
            if not pure or any(isinstance(a, ast.Starred) for a in s.value.args):
                return [s]
            for a in s.value.args:
                if isinstance(a, (ast.Call, ast.BinOp, ast.Subscript, ast.Attribute)):
                    v = f"arg_{Fresh.k}"
                    Fresh.k += 1
                    pre.append(asg(v, a))
                    new.append(nm(v))
                else:
                    new.append(a)
            s.value.args = new
            return pre + [s]
        return [s]


class method(ast.NodeTransformer):
    """the last expression of a method moves into a helper method"""

    def visit_ClassDef(self, c):
        add = []
        for m in c.body:
            if isinstance(m, ast.FunctionDef) and m.body and isinstance(m.body[-1], ast.Return) and m.args.args and m.args.args[0].arg == "self" and not m.decorator_list and isinstance(m.body[-1].value, (ast.Call, ast.BinOp, ast.Tuple, ast.Dict)):
                v = m.body[-1].value
                if any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.NamedExpr)) or isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(v)):
                    continue
                loc = names(m, ast.Store) | {a.arg for a in m.args.args + m.args.kwonlyargs} | {a.arg for a in (m.args.vararg, m.args.kwarg) if a}
                use = [u for u in sorted(names(v, ast.Load)) if u in loc and u != "self"]
                h = f"_finish_{m.name.strip('_')}_{Fresh.k}"
                Fresh.k += 1
                add.append(ast.FunctionDef(h, ast.arguments([], [ast.arg("self")] + [ast.arg(u) for u in use], None, [], [], None, []), [ast.Return(v)], [], type_params=[]))
                m.body[-1] = ast.Return(ast.Call(ast.Attribute(nm("self"), h, ast.Load()), [nm(u) for u in use], []))
        c.body += add
        return c


ALL = [k for k, v in list(globals().items()) if isinstance(v, type) and issubclass(v, ast.NodeTransformer) and v not in (Blocks, Exprs, ast.NodeTransformer)]


def apply(src, ts):
    tree = ast.parse(src)
    for t in ts:
        x = globals()[t]()
        x.new = []
        tree = x.visit(tree)
        for fn, f in x.new:
            k = next(i for i, n in enumerate(tree.body) if isinstance(n, (ast.FunctionDef, ast.ClassDef)))
            tree.body.insert(k, f)
        tree = ast.parse(ast.unparse(ast.fix_missing_locations(tree)))
    return ast.unparse(tree) + "\n"


def main(out, ts):
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree("/repo/finmlkit", out + "/finmlkit", ignore=shutil.ignore_patterns("__pycache__"))
    for d, _, fs in os.walk(out):
        for f in fs:
            if f.endswith(".py") and (EVERY or "njit" in open(os.path.join(d, f)).read()):
                p = os.path.join(d, f)
                s = open(p).read()
                open(p, "w").write(apply(s, ts))


if __name__ == "__main__":
    if len(sys.argv) < 3:
        print(" ".join(ALL))
    else:
        main(sys.argv[1], sys.argv[2].split(","))
