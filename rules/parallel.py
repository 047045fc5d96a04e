"""Lists read by the position of another list's item are filled once per item."""

import ast

from sa import src


def check(ctx, pkg):
    """For `for i, x in enumerate(A): ... B[i]` with B an attribute: every loop that fills B runs over A and appends on
    every path through its body."""
    n = 0
    for m, q, fn, cls in pkg.functions():
        if cls is None:
            continue
        for loop in ast.walk(fn):
            if not (isinstance(loop, ast.For) and isinstance(loop.iter, ast.Call)
                    and isinstance(loop.iter.func, ast.Name) and loop.iter.func.id == "enumerate"
                    and len(loop.iter.args) == 1 and isinstance(loop.target, ast.Tuple)
                    and isinstance(loop.target.elts[0], ast.Name)):
                continue
            idx, over = loop.target.elts[0].id, loop.iter.args[0]
            for sub in ast.walk(loop):
                if not (isinstance(sub, ast.Subscript) and isinstance(sub.ctx, ast.Load)
                        and isinstance(sub.slice, ast.Name) and sub.slice.id == idx
                        and isinstance(sub.value, ast.Attribute) and not src.same(sub.value, over)):
                    continue
                n += 1
                one(ctx, m, q, cls, sub.value, over)
    ctx.coverage["positional_reads"] = n


def one(ctx, m, q, cls, lst, over):
    def fills(s):
        return (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute)
                and s.value.func.attr == "append" and src.same(s.value.func.value, lst))

    loops = []
    for fn in ast.walk(cls):
        if not isinstance(fn, ast.FunctionDef):
            continue
        for loop in ast.walk(fn):
            if isinstance(loop, ast.For) and any(fills(s) for s in ast.walk(loop) if isinstance(s, ast.stmt)):
                loops.append((fn, loop))
    name = f"{cls.name}: {ast.unparse(lst)} read by position of {ast.unparse(over)}"
    if len(loops) != 1 or not src.same(loops[0][1].iter, over):
        ctx.unknown(f"parallel list {name}")
        return
    fn, loop = loops[0]
    k = src.min_count(loop.body, fills)
    ctx.ob(k is None or k >= 1)
    if k == 0:
        ctx.report(f"raises IndexError: {name}",
                   f"{m.rel}: {fn.name}() fills {ast.unparse(lst)} in a loop over {ast.unparse(over)}, but not on every "
                   f"path through its body; {q} reads it by the item's position, which can lie past its end.")
