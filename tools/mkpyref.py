#!/usr/bin/env python3
"""mkpyref.py MODULE... : start of a reference file for a module (annotations and docstrings removed); reviewed by hand afterwards."""
import ast, os, sys
class T(ast.NodeTransformer):
    def visit_ImportFrom(s, n):
        if n.level:
            b = parts[:len(parts)-n.level+1]; n.module = ".".join(b + ([n.module] if n.module else [])); n.level = 0
        return n
    def visit_FunctionDef(s, n):
        s.generic_visit(n)
        n.returns = None
        for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]: a.annotation = None
        if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant): n.body = n.body[1:] or [ast.Pass()]
        return None if any(ast.unparse(d) == "overload" for d in n.decorator_list) else n
    def visit_ClassDef(s, n):
        s.generic_visit(n); n.bases = []
        if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant): n.body = n.body[1:]
        n.body = n.body or [ast.Pass()]
        return n
    def visit_AnnAssign(s, n):
        return ast.Assign(targets=[n.target], value=n.value, lineno=n.lineno) if n.value is not None else None
for name in sys.argv[1:]:
    p = "/repo/src/" + name.replace(".", "/"); pkg = os.path.isdir(p); p = p + "/__init__.py" if pkg else p + ".py"
    parts = name.split(".") if pkg else name.split(".")[:-1]
    t = T().visit(ast.parse(open(p).read()))
    body = [n for n in t.body if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant))]
    out = ['TARGET = "%s"' % name]
    parts = name.split(".") if pkg else name.split(".")[:-1]
    for n in body:
        if isinstance(n, ast.ImportFrom) and n.level:
            b = parts[:len(parts)-n.level+1]; n.module = ".".join(b + ([n.module] if n.module else [])); n.level = 0
        if isinstance(n, ast.ImportFrom) and n.module in ("__future__", "collections.abc", "scipp.typing", "numpy.typing"): continue
        if isinstance(n, ast.If) and "TYPE_CHECKING" in ast.dump(n.test): continue
        if isinstance(n, ast.Assign) and "TypeVar" in ast.dump(n.value): continue
        out.append(ast.unparse(ast.fix_missing_locations(n)))
    f = "/verif/witness/py/" + "_".join(name.split(".")[1:]).replace("__init__", "") + ".py"
    open(f, "w").write("\n".join(out) + "\n"); print(f)
