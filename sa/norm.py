"""Source normal forms applied before any analysis, so that equivalent loop spellings are analysed alike.

* `while True: if C: break; REST`              ->  `while not C: REST`
* `i = A; ...; while i < H: BODY; i += c`      ->  `for i in range(A, H, c): BODY`
  when BODY neither assigns i nor anything H depends on, contains no `continue` of this loop, H is a name, a constant
  or a length, and i is not read after the loop.
Every rewriting is exact on terminating executions; anything else is left as written."""
from __future__ import annotations
import ast


def _neg(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    return ast.copy_location(ast.UnaryOp(ast.Not(), t), t)


def _stores(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}


def _loads(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


def _own(body, kinds):
    """statements of `kinds` that belong to this loop (not to a nested one)"""
    for s in body:
        if isinstance(s, kinds):
            return True
        if isinstance(s, ast.If) and (_own(s.body, kinds) or _own(s.orelse, kinds)):
            return True
        if isinstance(s, (ast.With, ast.Try)):
            subs = [s.body] + ([s.orelse, s.finalbody] + [h.body for h in s.handlers] if isinstance(s, ast.Try) else [])
            if any(_own(x, kinds) for x in subs):
                return True
        if isinstance(s, (ast.For, ast.While)) and _own(s.orelse, kinds):
            return True
    return False


def _simple_bound(h):
    if isinstance(h, (ast.Constant, ast.Name)):
        return True
    if isinstance(h, ast.UnaryOp) and isinstance(h.op, ast.USub):
        return _simple_bound(h.operand)
    if isinstance(h, ast.BinOp) and isinstance(h.op, (ast.Add, ast.Sub, ast.Mult)):
        return _simple_bound(h.left) and _simple_bound(h.right)
    if isinstance(h, ast.Call) and isinstance(h.func, ast.Name) and h.func.id in ("len", "min", "max", "int") and not h.keywords:
        return all(_simple_bound(a) for a in h.args)
    if isinstance(h, ast.Attribute) and h.attr == "size" and isinstance(h.value, ast.Name):
        return True
    if isinstance(h, ast.Subscript) and isinstance(h.value, ast.Attribute) and h.value.attr == "shape" and isinstance(h.value.value, ast.Name) \
            and isinstance(h.slice, ast.Constant):
        return True
    return False


class Norm(ast.NodeTransformer):
    def visit_While(self, node):
        self.generic_visit(node)
        while isinstance(node.test, ast.Constant) and node.test.value is True and not node.orelse and node.body \
                and isinstance(node.body[0], ast.If) and len(node.body[0].body) == 1 and isinstance(node.body[0].body[0], ast.Break):
            g = node.body[0]
            node.test = _neg(g.test)
            node.body = list(g.orelse) + node.body[1:] or [ast.copy_location(ast.Pass(), g)]
        t = node.test
        # not (i >= H) with integer i is  i < H; the rewriting below only uses it for loop counters
        return node


def _step(s):
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, int):
        if isinstance(s.op, ast.Add):
            return s.target.id, s.value.value
        if isinstance(s.op, ast.Sub):
            return s.target.id, -s.value.value
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.BinOp) \
            and isinstance(s.value.op, (ast.Add, ast.Sub)):
        v, n = s.value, s.targets[0].id
        if isinstance(v.left, ast.Name) and v.left.id == n and isinstance(v.right, ast.Constant) and isinstance(v.right.value, int):
            return n, v.right.value if isinstance(v.op, ast.Add) else -v.right.value
        if isinstance(v.op, ast.Add) and isinstance(v.right, ast.Name) and v.right.id == n and isinstance(v.left, ast.Constant) and isinstance(v.left.value, int):
            return n, v.left.value
    return None


_FL = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
_NG = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt}


def _bound(t, i):
    """the loop test as (op, H) with i on the left"""
    neg = False
    while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        t, neg = t.operand, not neg
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
        return None
    op, l, r = type(t.ops[0]), t.left, t.comparators[0]
    if op not in _FL:
        return None
    if isinstance(r, ast.Name) and r.id == i and not (isinstance(l, ast.Name) and l.id == i):
        op, l, r = _FL[op], r, l
    if not (isinstance(l, ast.Name) and l.id == i):
        return None
    if neg:
        op = _NG[op]
    return op, r


def _tofor(fn, blk, k):
    w = blk[k]
    if w.orelse or len(w.body) < 2:
        return None
    st = _step(w.body[-1])
    if not st or st[1] == 0:
        return None
    i, c = st
    b = _bound(w.test, i)
    if not b:
        return None
    op, H = b
    if not _simple_bound(H) or (c > 0) != (op in (ast.Lt, ast.LtE)):
        return None
    body = w.body[:-1]
    bs = set().union(*[_stores(s) for s in body])
    if i in bs or (_loads(H) & bs) or i in _loads(H) or _own(body, (ast.Continue,)):
        return None
    if any(isinstance(x, (ast.Return, ast.Yield, ast.Lambda, ast.FunctionDef)) for s in body for x in ast.walk(s)) and False:
        return None
    # the initial assignment: the nearest preceding statement of the block storing i
    j = k - 1
    while j >= 0 and i not in _stores(blk[j]):
        j -= 1
    if j < 0:
        return None
    a = blk[j]
    if not (isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and a.targets[0].id == i):
        return None
    if not _simple_bound(a.value):
        return None
    mid = set().union(set(), *[_stores(s) for s in blk[j + 1:k]])
    if _loads(a.value) & mid:
        return None
    if any(i in _loads(s) for s in blk[j + 1:k]):
        return None
    # i must not be read outside this loop except in loops of its own
    inside = {id(x) for x in ast.walk(w)}
    own = set()
    for x in ast.walk(fn):
        if isinstance(x, ast.For) and isinstance(x.target, ast.Name) and x.target.id == i:
            own |= {id(y) for y in ast.walk(x)}
        elif isinstance(x, ast.While) and x is not w and x.body and (_step(x.body[-1]) or ("",))[0] == i:
            own |= {id(y) for y in ast.walk(x)}
        elif isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)) and any(i in _stores(g.target) for g in x.generators):
            own |= {id(y) for y in ast.walk(x)}
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and x.id == i and isinstance(x.ctx, ast.Load) and id(x) not in inside and id(x) not in own:
            return None
    one = lambda v: ast.copy_location(ast.Constant(v), w)
    if op in (ast.LtE, ast.GtE):
        H = ast.copy_location(ast.BinOp(H, ast.Add() if c > 0 else ast.Sub(), one(1)), w)
    args = [a.value, H] + ([] if c == 1 else [one(c)])
    rng = ast.copy_location(ast.Call(ast.copy_location(ast.Name("range", ast.Load()), w), args, []), w)
    f = ast.copy_location(ast.For(ast.copy_location(ast.Name(i, ast.Store()), w), rng, body, [], None), w)
    return j, ast.fix_missing_locations(f)


def _blocks(n):
    for f in ("body", "orelse", "finalbody"):
        b = getattr(n, f, None)
        if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
            yield b


def _whiles(fn):
    again = True
    while again:
        again = False
        for n in list(ast.walk(fn)):
            for b in _blocks(n):
                for k, s in enumerate(b):
                    if isinstance(s, ast.While):
                        r = _tofor(fn, b, k)
                        if r:
                            j, f = r
                            b[k] = f
                            del b[j]
                            again = True
                            break
                if again:
                    break
            if again:
                break


def normalise(tree):
    Norm().visit(tree)
    for n in list(ast.walk(tree)):
        if isinstance(n, ast.FunctionDef):
            _whiles(n)
    ast.fix_missing_locations(tree)
    return tree
