"""Selection of targets, happens-before rules and other dedicated analyses."""
import ast
import fnmatch
import json
import os
import re

from .repo import Repo, Func, AnalysisBroken
from . import equiv
from .equiv import Finding, canon, show, short

HERE = os.path.dirname(os.path.abspath(__file__))


class Result(object):
    def __init__(self):
        self.items = []
        self.rules = {}
        self._seen = set()

    def add(self, status, label, where, line, detail, key):
        k = (key, detail if status != 'EQ' else '', line)
        if k in self._seen and status != 'EQ':
            return
        self._seen.add(k)
        self.items.append(dict(status=status, label=label, where=where, line=line, detail=detail or '', key=key))

    def add_all(self, fs, target):
        for f in fs:
            self.add(f.status, f.obs, f.where, f.line, f.detail, '%s|%s' % (target, f.obs))

    def rule(self, name, n=1):
        self.rules[name] = self.rules.get(name, 0) + n

    def violations(self):
        return [x for x in self.items if x['status'] == 'DIFF']


def baseline():
    with open(os.path.join(HERE, 'baseline_funcs.json')) as f:
        return json.load(f)


def expand(pats):
    """patterns -> [(kind, module, name)] over the functions of the reference tree"""
    base = baseline()
    with open(os.path.join(HERE, 'baseline_names.json')) as f:
        names = json.load(f)
    out, seen = [], set()

    def put(*t):
        if t not in seen:
            seen.add(t)
            out.append(t)
    for p in pats:
        if p.startswith('script:'):
            pat = p[7:]
            d = os.path.join(os.path.dirname(HERE), 'specs', 'bin')
            hit = sorted('bin/' + f for f in os.listdir(d) if f.endswith('.py') and fnmatch.fnmatch('bin/' + f, pat))
            if not hit:
                raise AnalysisBroken('no script matches ' + p)
            for h in hit:
                put('script', h, '')
            continue
        if p.startswith('const:'):
            mod, name = p[6:].split(':')
            mod = 'redmapper/' + mod
            if name == '*':
                put('const', mod, '*')
                continue
            if '%s:%s' % (mod, name) not in names:
                raise AnalysisBroken('no constant ' + p)
            put('const', mod, name)
            continue
        mod, q = p.split(':')
        if not mod.startswith('bin/'):
            mod = 'redmapper/' + mod
        hit = 0
        for b in base:
            bm, bq = b.split(':')
            if bm.endswith('_version.py'):
                continue
            if (fnmatch.fnmatch(bm, mod)) and fnmatch.fnmatch(bq, q):
                put('func', bm, bq)
                hit += 1
        if not hit:
            raise AnalysisBroken('no function matches ' + p)
    return out


def objective_keeps_data(repo, specs, res, p):
    """Evaluating or setting up a fit never changes, through an alias, the data the objective is defined on."""
    seen = set()
    for kind, rel, name in expand(p['funcs']):
        if kind != 'func' or '.' not in name or name.split('.')[-1] not in ('__call__', 'fit'):
            continue
        got = equiv.real_func(repo, rel, name)
        if got is None or got[0] is None:
            continue
        f, c = got
        if f.where in seen:
            continue
        seen.add(f.where)
        A = equiv.summarise(repo, f, c.name if c is not None else None)
        res.rule('objective keeps its data')
        bad = {}
        # names that stand for a stored value itself (a sum such as 0 + n is a new value)
        named = set(n.value.attr.lower() for n in ast.walk(f.node) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute))
        for x, ln in A.inplace:
            b = x
            if x.op != 'idx' and not (x.op == 'attr' and x.args[1] in named) and x.op != 'sym':
                continue
            while b.op in ('attr', 'attrv', 'idx') and isinstance(b.args[0], equiv.Term):
                if b.op == 'attr' and b.args[0].op == 'sym' and b.args[0].args[0] == 'self':
                    bad.setdefault('self.' + b.args[1], ln)
                b = b.args[0]
            if b.op == 'sym' and b.args[0] in f.params() and b.args[0] != 'self':
                bad.setdefault(b.args[0], ln)
        for a, ln in sorted(bad.items()):
            res.add('DIFF', 'data of the objective', f.where, ln, '%s is changed in place through a local name, so the next evaluation sees other data' % a,
                    'rule:objective-data|%s:%s|%s' % (rel, name, a))
        if not bad:
            res.add('EQ', 'data of the objective', f.where, f.node.lineno, '', 'rule:objective-data|%s:%s' % (rel, name))


RULES = {'objective_keeps_data': objective_keeps_data}
