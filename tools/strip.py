"""developer aid: docstring-stripped copies of the sources for quick reading."""
import ast, glob, os, sys
out = sys.argv[1]
os.makedirs(out, exist_ok=True)
for f in glob.glob('/repo/gw_eccentricity/**/*.py', recursive=True):
    t = ast.parse(open(f).read())
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            n.body = n.body[1:] or [ast.Pass()]
    rel = os.path.relpath(f, '/repo/gw_eccentricity').replace('/', '__')
    open(os.path.join(out, rel), 'w').write(ast.unparse(t) + '\n')
