"""Prints a Python file without docstrings (reading aid)."""
import ast, sys
src = open(sys.argv[1]).read().split("\n")
skip = set()
for n in ast.walk(ast.parse("\n".join(src))):
    if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
        skip |= set(range(n.body[0].lineno, n.body[0].end_lineno + 1))
a, b = (int(x) for x in sys.argv[2:4]) if len(sys.argv) > 3 else (1, 10**6)
for i, l in enumerate(src, 1):
    if i not in skip and l.strip() and a <= i <= b:
        print(i, l)
