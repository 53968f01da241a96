"""Counting while loops read as for loops over a range: `while i < n: ...; i += 1` means `for i in range(i, n): ...`
when nothing else in the body changes i or n, no `continue` skips the step, and i is not read after the loop."""
import ast


def stores(nodes):
    out = set()
    for s in nodes:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
            elif isinstance(x, (ast.Global, ast.Nonlocal)):
                out |= set(x.names)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                out.add(x.name)
    return out


def jumps(body, kind):
    todo = list(body)
    while todo:
        s = todo.pop()
        if isinstance(s, kind):
            return True
        if isinstance(s, (ast.For, ast.While)):
            todo += s.orelse
        elif not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            todo += [c for c in ast.iter_child_nodes(s) if isinstance(c, (ast.stmt, ast.ExceptHandler))]
    return False


def fixed(e, body):
    """the value of e is the same throughout the body"""
    changed = stores(body)
    touched = set()
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name):
                touched.add(x.func.value.id)
            elif isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name):
                touched.add(x.value.id)
            elif isinstance(x, ast.Delete):
                touched |= {y.id for y in ast.walk(x) if isinstance(y, ast.Name)}

    def ok(n, inner):
        if isinstance(n, ast.Constant):
            return True
        if isinstance(n, ast.Name):
            return n.id not in changed and (not inner or n.id not in touched)
        if isinstance(n, ast.BinOp):
            return ok(n.left, inner) and ok(n.right, inner)
        if isinstance(n, ast.UnaryOp):
            return ok(n.operand, inner)
        if isinstance(n, ast.Attribute):
            return ok(n.value, True)
        if isinstance(n, ast.Subscript):
            return ok(n.value, True) and isinstance(n.slice, ast.Constant)
        if isinstance(n, ast.Call):
            return isinstance(n.func, ast.Name) and n.func.id == 'len' and len(n.args) == 1 and not n.keywords and ok(n.args[0], True)
        return False
    return ok(e, False)


def counting(w):
    t = w.test
    if w.orelse or not w.body or not isinstance(t, ast.Compare) or len(t.ops) != 1:
        return None
    a, b, op = t.left, t.comparators[0], t.ops[0]
    if isinstance(op, (ast.Gt, ast.GtE)):
        a, b = b, a
    elif not isinstance(op, (ast.Lt, ast.LtE)):
        return None
    if not isinstance(a, ast.Name):
        return None
    i, last, body = a.id, w.body[-1], w.body[:-1]
    step = isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and last.target.id == i and isinstance(last.op, ast.Add) and \
        isinstance(last.value, ast.Constant) and last.value.value == 1 and last.value.value is not True
    if not step and isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and last.targets[0].id == i:
        v = last.value
        if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add):
            for x, y in ((v.left, v.right), (v.right, v.left)):
                step = step or isinstance(x, ast.Name) and x.id == i and isinstance(y, ast.Constant) and y.value == 1
    if not step or not body or i in stores(body) or jumps(body, (ast.Continue, ast.Break)) or not fixed(b, body):
        return None
    if isinstance(op, (ast.LtE, ast.GtE)):
        b = ast.copy_location(ast.BinOp(b, ast.Add(), ast.copy_location(ast.Constant(1), b)), b)
    return i, b, body


def renewed(fn, i, after, read):
    """the read of i sees an assignment made below line after: one in a block around it, earlier in that block"""
    for holder in ast.walk(fn):
        for field in ('body', 'orelse', 'finalbody'):
            lst = getattr(holder, field, None)
            if not isinstance(lst, list):
                continue
            for k, y in enumerate(lst):
                if isinstance(y, ast.Assign) and y.lineno > after and any(isinstance(t, ast.Name) and t.id == i for t in y.targets):
                    if any(x is read for z in lst[k + 1:] for x in ast.walk(z)):
                        return True
    return False


def function(fn):
    for holder in ast.walk(fn):
        for field in ('body', 'orelse', 'finalbody'):
            lst = getattr(holder, field, None)
            if not isinstance(lst, list):
                continue
            for k, s in enumerate(lst):
                if not isinstance(s, ast.While):
                    continue
                g = counting(s)
                if g is None:
                    continue
                i, b, body = g
                # set before the loop in the same block, so that a second round starts anew
                start = [y for y in lst[:k] if isinstance(y, ast.Assign) and any(isinstance(z, ast.Name) and z.id == i for t in y.targets for z in ast.walk(t))]
                reads = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == i and isinstance(x.ctx, ast.Load) and x.lineno > s.end_lineno]
                if not start:
                    continue
                if not all(renewed(fn, i, s.end_lineno, x) for x in reads):
                    continue
                it = ast.Call(ast.Name('range', ast.Load()), [ast.Name(i, ast.Load()), b], [])
                f = ast.For(ast.Name(i, ast.Store()), it, body, [], None)
                ast.copy_location(f, s)
                ast.fix_missing_locations(f)
                for y in (it, it.func, it.args[0], f.target):
                    ast.copy_location(y, s.test)
                lst[k] = f


def normal(tree):
    for fn in ast.walk(tree):
        if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            function(fn)
    return tree
