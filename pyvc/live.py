"""Local names whose value at the end of a loop iteration can never be read again (syntactic, conservative)."""
import ast

_memo = {}


def dead_after_iteration(func, loop):
    """names stored in the loop that every iteration writes before it reads them and nothing else reads."""
    k = (id(func), id(loop))
    if k not in _memo:
        _memo[k] = (func, loop, _dead(func, loop))
    return _memo[k][2]


def _dead(func, loop):
    inside = {id(x) for x in ast.walk(loop)}
    stored = {x.id for x in ast.walk(loop) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    out = set()
    for x in ast.walk(func):
        if isinstance(x, (ast.Global, ast.Nonlocal)):
            stored -= set(x.names)
        # read outside of the loop, or in a nested function
        if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store) and id(x) not in inside:
            stored.discard(x.id)
        if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not func:
            for y in ast.walk(x):
                if isinstance(y, ast.Name):
                    stored.discard(y.id)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("locals", "vars", "eval", "exec"):
            return frozenset()
    # names of the iterable or the test
    head = loop.iter if isinstance(loop, ast.For) else loop.test
    for x in ast.walk(head):
        if isinstance(x, ast.Name):
            stored.discard(x.id)
    for s in loop.orelse:
        for x in ast.walk(s):
            if isinstance(x, ast.Name):
                stored.discard(x.id)
    target = {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)} if isinstance(loop, ast.For) else set()
    for n in stored:
        if n in target or _block(loop.body, n) != "R":
            out.add(n)
    return frozenset(out)


def _reads(node, n):
    return any(isinstance(x, ast.Name) and x.id == n and not isinstance(x.ctx, ast.Store) for x in ast.walk(node))


def _writes(target, n):
    return any(isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Store) for x in ast.walk(target))


def _block(stmts, n):
    """'R': may read n before writing it; 'W': writes it first, or ends; 'N': neither."""
    for s in stmts:
        r = _stmt(s, n)
        if r != "N":
            return r
    return "N"


def _stmt(s, n):
    if isinstance(s, (ast.Assign, ast.AnnAssign, ast.Expr)):
        if s.value is not None and _reads(s.value, n):
            return "R"
        ts = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) else []
        for t in ts:
            if _reads(t, n):
                return "R"
        return "W" if (not isinstance(s, ast.AnnAssign) or s.value is not None) and any(_writes(t, n) for t in ts) else "N"
    if isinstance(s, (ast.Return, ast.Raise)):
        return "R" if _reads(s, n) else "W"
    if isinstance(s, ast.Pass):
        return "N"
    if isinstance(s, ast.If):
        if _reads(s.test, n):
            return "R"
        a, b = _block(s.body, n), _block(s.orelse, n)
        return "R" if "R" in (a, b) else "W" if a == b == "W" else "N"
    if isinstance(s, ast.Try):
        parts = [_block(s.body, n)] + [_block(h.body, n) for h in s.handlers]
        rest = _block(list(s.orelse) + list(s.finalbody), n)
        if "R" in parts or any(h.type is not None and _reads(h.type, n) for h in s.handlers):
            return "R"
        if all(p == "W" for p in parts):
            return "W"
        return "R" if rest == "R" else "N"
    if isinstance(s, ast.For):
        if _reads(s.iter, n):
            return "R"
        if _writes(s.target, n):
            return "R" if _block(s.orelse, n) == "R" else "N"
        r = [_block(s.body, n), _block(s.orelse, n)]
        return "R" if "R" in r else "N"
    return "R" if any(isinstance(x, ast.Name) and x.id == n for x in ast.walk(s)) else "N"
