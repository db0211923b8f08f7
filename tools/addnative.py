"""development: extend the baseline lists with the compiled extensions' functions.  Never run by a check."""
import ast, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def ld(n): return set(json.load(open(os.path.join(H, 'sa', n + '.json'))))
def sv(n, s): json.dump(sorted(s), open(os.path.join(H, 'sa', n + '.json'), 'w'), indent=0)
bf, bn, vo, at = ld('baseline_funcs'), ld('baseline_names'), ld('vocab'), ld('attrs')
for d in ('chisq_dist', 'solver_nfw'):
    rel = 'redmapper/%s/native_c.py' % d
    t = ast.parse(open(os.path.join(H, 'specs', rel)).read())
    for n in t.body:
        if isinstance(n, ast.FunctionDef):
            bf.add('%s:%s' % (rel, n.name))
        elif isinstance(n, ast.Assign):
            bn.add('%s:%s' % (rel, n.targets[0].id))
    for n in ast.walk(t):
        if isinstance(n, ast.Attribute):
            at.add(n.attr)
            if isinstance(n.value, ast.Name) and n.value.id == 'gsl':
                vo.add('gsl.' + n.attr)
        elif isinstance(n, ast.Name):
            at.add(n.id)
sv('baseline_funcs', bf); sv('baseline_names', bn); sv('vocab', vo); sv('attrs', at)
