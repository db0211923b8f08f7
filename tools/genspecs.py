"""development: (re)write /verif/specs from a reviewed source tree.  Never run by a check."""
import ast, os, sys
SRC = sys.argv[1] if len(sys.argv) > 1 else '/repo'
DST = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs')


def strip(t):
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body:
            b = n.body[0]
            if isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant) and isinstance(b.value.value, str):
                n.body = n.body[1:] or ([ast.Pass()] if not isinstance(n, ast.Module) else [])
    return ast.fix_missing_locations(t)


for top in ('redmapper', 'bin'):
    for d, dirs, files in os.walk(os.path.join(SRC, top)):
        for f in files:
            if f.endswith('.py') and f != '_version.py':
                p = os.path.join(d, f)
                o = os.path.join(DST, os.path.relpath(p, SRC))
                os.makedirs(os.path.dirname(o), exist_ok=True)
                with open(p) as fh:
                    t = strip(ast.parse(fh.read()))
                with open(o, 'w') as fh:
                    fh.write(ast.unparse(t) + '\n')

sys.path.insert(0, os.path.dirname(DST))
from sa import cfront
for rel, u in cfront.units(SRC):
    assert not u.unsupported, u.unsupported
    with open(os.path.join(DST, rel, 'native_c.py'), 'w') as fh:
        fh.write(ast.unparse(u.tree) + '\n')
