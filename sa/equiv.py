"""Value-flow equivalence of a function of the tree with its reference definition.

Both sides are summarised by the same value-flow extraction (sa.vfg): the
returned value, the final content of every object field it writes, the
effectful calls and the raised exceptions, each as a canonical term with the
condition under which it happens.  Summaries are compared by normal form and,
where normal forms differ, by random interpretation of the terms (Gulwani &
Necula): leaves and uninterpreted function symbols get random values and the
two terms must agree.  Nothing of the program is executed.
"""
import ast
import hashlib
import json
import math
import os
import random
import struct
import time

from . import terms as tm
from .terms import *
from .terms import T, Term
from .repo import Repo, Func, Module, AnalysisBroken
from .vfg import Interp, root, FULL, PURE_EXT, seq_like

HERE = os.path.dirname(os.path.abspath(__file__))

# ------------------------------------------------------------------ canonical stripping
_c_memo = {}


def filled_tuple(x):
    """a native tuple all of whose slots have been set"""
    items, b = {}, x
    while b.op == 'upd' and b.args[1].op == 'num':
        items.setdefault(int(b.args[1].args[0]), b.args[2])
        b = b.args[0]
    if b.op == 'alloc' and len(b.args[1]) == 2 and b.args[1][1].op == 'str' and b.args[1][1].args[0] == 'PyTuple' and b.args[1][0].op == 'num':
        n = int(b.args[1][0].args[0])
        if sorted(items) == list(range(n)):
            return T('tuple', *[items[i] for i in range(n)])
    return None


def canon(t):
    """forget copies, casts and identities of allocations; keep value versions"""
    def fn(x):
        if x.op in ('copy', 'cast'):
            return x.args[0]
        if x.op == 'alloc':
            return T('alloc', x.args[0], x.args[1], x.args[2], 0)
        if x.op == 'new':
            return T('new', x.args[0], 0, x.args[2])
        if x.op == 'exc':
            return T('exc', 0, x.args[1])
        if x.op == 'closure':
            return x.args[1]
        if x.op == 'opaque':
            return T('opaque', x.args[0], 0)
        if x.op == 'upd':
            return filled_tuple(x)
        if x.op == 'call' and x.args[2] and x.args[2][-1][0] == '$':
            return T('call', x.args[0], x.args[1], x.args[2][:-1])
        return None
    return rewrite(t, fn, _c_memo)


_d_memo = {}


def unversion(t):
    def fn(x):
        if x.op == 'attrv':
            return T('attr', x.args[0], x.args[1])
        return None
    return rewrite(canon(t), fn, _d_memo)


# ------------------------------------------------------------------ random interpretation
def _h(*parts):
    m = hashlib.blake2b(digest_size=8)
    m.update(repr(parts).encode())
    return struct.unpack('<Q', m.digest())[0]


def _q(v, nd):
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, float):
        if abs(v) < 1e-10:
            return '0.0'
        if v != v or v in (float('inf'), float('-inf')):
            return repr(v)
        return '%.*e' % (nd, v)
    return v


MATHF = ('numpy.log', 'numpy.log10', 'numpy.exp', 'abs', 'pow10', 'numpy.sin', 'numpy.cos')
INTERPRETED = ('num', 'bool', 'none', 'str', 'sum', 'prod', 'pow', 'lt0', 'le0', 'eq0', 'ne0', 'and', 'or', 'not', 'ite',
               'min', 'max', 'fmt', 'tuple', 'list', 'dict', 'set', 'slice')


# operators whose boolean arguments are conditions on the elements of an array
MASKED = ('count', 'where', 'idx', 'upd', 'call', 'any', 'all')
# values that do not vary over the elements of an array
SCALAR_OPS = ('isnone', 'isinst', 'size', 'count', 'it', 'exc', 'exited', 'mu', 'mu0', 'out', 'loopk')


class RI(object):
    def __init__(self, seed, nd=7, unversion=False, force=None, scale=None, group=None):
        self.seed = seed
        self.force = force or {}
        self.nd = nd
        self.memo = {}
        self.unv = unversion
        self.mode = seed % 3
        self.signed = seed % 5 == 4
        self.undef = False          # a logarithm or root of a negative number was taken: this interpretation says nothing
        self.scale = scale
        # an array is represented by one element; a condition on its elements that is handed to a function
        # (how many, which) is told apart by its truth for a few other elements as well
        self.group = group
        if group is None:
            self.group = g = [self]
            for k, sc in enumerate((3.0, 150.0, 2000.0)):
                g.append(RI(seed + 3000 * (k + 1), nd, unversion, self.force, sc, g))

    def leaf(self, *key):
        if key in self.force:
            return self.force[key]
        h = _h(self.seed, *key)
        if self.scale is not None:
            return ((h % 1000003) / 1000003.0 * 2.0 - 1.0) * self.scale
        if self.mode == 2:
            return float(h % 4 - 2 if self.signed else h % 4)
        if self.signed:
            return ((h % 1000003) / 1000003.0 * 2.0 - 1.0) * 2.7
        return 0.2 + (h % 1000003) / 1000003.0 * 2.3

    def bit(self, n, *key):
        if key in self.force:
            return self.force[key]
        return _h(self.seed, *key) % n

    def key(self, t):
        """the entry of the function table that decides this term; None for interpreted operators"""
        op, a = t.op, t.args
        if op in INTERPRETED:
            return None
        if op in ('eq', 'ne'):
            x, y = _q(self.ev(a[0]), 5), _q(self.ev(a[1]), 5)
            if x == y or all(isinstance(z, str) and z.startswith('str:') for z in (x, y)):
                return None
            return ('eq', tuple(sorted([str(x), str(y)])))
        if op == 'isnone':
            v = self.ev(a[0])
            if isinstance(v, float) and self.sign(v) == 0:
                return None
            return ('isnone', _q(v, self.nd)) if v != 'None' else None
        if op in ('size', 'count', 'it', 'in', 'isinst', 'exc', 'exited', 'attr', 'sym', 'idx', 'elem', 'attrv'):
            return (op, self._args(a, op))
        if op == 'call' and isinstance(a[0], str):
            if a[0] in MATHF and len(a[1]) == 1:
                return None
            if tm.is_bool(t):
                return (a[0], self._args(a[1:], op))
        return (op, self._args(a, op))

    def sign(self, v):
        if not isinstance(v, float):
            return self.bit(3, 's', v) - 1
        if v != v:
            return 1
        if abs(v) < 1e-9:
            return 0
        if self.mode == 1 and abs(v) < 1e50 and _h(self.seed, 'z', _q(abs(v), 5)) % 4 == 0:
            return 0
        return 1 if v > 0 else -1

    def tru(self, v):
        if isinstance(v, bool):
            return v
        return bool(self.bit(2, 't', _q(v, self.nd)))

    @staticmethod
    def one_value(t):
        return t.op in SCALAR_OPS or t.op == 'attr' and t.args[0].op == 'attr' and t.args[0].args[1] == 'config'

    def holds(self, t):
        if self.scale is not None and (t.op in ('attr', 'sym') or self.one_value(t)):
            return self.group[0].holds(t)       # a flag
        return self.tru(self.ev(t))

    def f(self, v):
        if isinstance(v, bool):
            return 1.0 if v else 0.0
        if isinstance(v, float):
            return v
        return self.leaf('num', v)

    def ev(self, t):
        m = self.memo
        r = m.get(t)
        if r is not None or t in m:
            return r
        if self.scale is not None and self.one_value(t):
            r = m[t] = self.group[0].ev(t)
            return r
        r = self._ev(t)
        if isinstance(r, float) and (abs(r) > 1e100):
            r = self.leaf('big', _q(math.copysign(1.0, r), 2))
        m[t] = r
        return r

    def _args(self, a, op=None):
        out = []
        for x in a:
            if isinstance(x, Term):
                v = self.ev(x)
                if isinstance(v, bool) and x.op != 'bool' and op in MASKED:
                    v = ('m',) + tuple(r.tru(r.ev(x)) for r in self.group)
                    out.append(v)
                    continue
                out.append(_q(v, self.nd))
            elif isinstance(x, tuple):
                out.append(self._args(x, op))
            else:
                out.append(repr(x))
        return tuple(out)

    def _ev(self, t):
        op, a = t.op, t.args
        if op == 'num':
            return float(a[0])
        if op == 'bool':
            return a[0] == 'T'
        if op == 'none':
            return 'None'
        if op == 'str':
            return 'str:' + a[0]
        if op == 'sum':
            s = 0.0
            for c, mo in a:
                s += float(c) * self.f(self.ev(mo))
            return s
        if op == 'prod':
            p = 1.0
            for b, e in a:
                v = self.f(self.ev(b))
                try:
                    p *= self._pow(v, float(e))
                except (OverflowError, ZeroDivisionError):
                    p = self.leaf('ovf')
            return p
        if op == 'pow':
            try:
                return self._pow(self.f(self.ev(a[0])), self.f(self.ev(a[1])))
            except (OverflowError, ZeroDivisionError):
                return self.leaf('ovf')
        if op in ('lt0', 'le0', 'eq0', 'ne0'):
            s = self.sign(self.f(self.ev(a[0])))
            return {'lt0': s < 0, 'le0': s <= 0, 'eq0': s == 0, 'ne0': s != 0}[op]
        if op in ('eq', 'ne'):
            x, y = _q(self.ev(a[0]), 5), _q(self.ev(a[1]), 5)
            same = x == y
            texts = [z for z in (x, y) if isinstance(z, str) and z.startswith('str:')]
            if same or len(texts) == 2:
                pass                                # two texts are equal or not
            elif self.mode != 0:
                same = self.bit(3, 'eq', tuple(sorted([str(x), str(y)]))) == 0
            else:
                same = self.force.get(('eq', tuple(sorted([str(x), str(y)])))) == 0
            if same and len(texts) == 1:            # a value is at most one of several texts
                same = self.memo.setdefault(('is', y if texts[0] is x else x), texts[0]) == texts[0]
            return same if op == 'eq' else not same
        if op == 'and':
            return all([self.holds(x) for x in a])
        if op == 'or':
            return any([self.holds(x) for x in a])
        if op == 'not':
            return not self.holds(a[0])
        if op == 'ite':
            return self.ev(a[1]) if self.holds(a[0]) else self.ev(a[2])
        if op == 'isnone':
            v = self.ev(a[0])
            if v == 'None':
                return True
            if isinstance(v, float) and self.sign(v) == 0:
                return False        # zero is a value
            return self.bit(3, 'isnone', _q(v, self.nd)) == 0
        if op == 'min':
            return min(self.f(self.ev(x)) for x in a)
        if op == 'max':
            return max(self.f(self.ev(x)) for x in a)
        if op in ('size', 'count', 'it'):
            return float(self.bit(4, op, self._args(a, op)))
        if op in ('in', 'isinst', 'exc', 'exited'):
            return bool(self.bit(2, op, self._args(a, op)))
        if op == 'attrv' and self.unv:
            return self.leaf('attr', self._args(a[:2]))
        if op == 'sym' and a[0] == 'numpy.inf':
            return 1e60
        if op in ('attr', 'sym', 'idx', 'elem', 'attrv'):
            return self.leaf(op, self._args(a, op))
        if op == 'call' and isinstance(a[0], str):
            n = a[0]
            if n in MATHF and len(a[1]) == 1:
                v = self.f(self.ev(a[1][0]))
                try:
                    if n in ('numpy.log', 'numpy.log10') and v < 0:
                        self.undef = True
                    if n == 'numpy.log':
                        return math.log(v) if v > 0 else self.leaf('log', _q(v, self.nd))
                    if n == 'numpy.log10':
                        return math.log10(v) if v > 0 else self.leaf('log10', _q(v, self.nd))
                    if n == 'numpy.exp':
                        return math.exp(v)
                    if n == 'pow10':
                        return 10.0 ** v
                    if n == 'abs':
                        return abs(v)
                    if n == 'numpy.sin':
                        return math.sin(v)
                    return math.cos(v)
                except OverflowError:
                    return self.leaf('ovf')
            if tm.is_bool(t):
                return bool(self.bit(2, n, self._args(a[1:], op)))
        if op in ('fmt', 'tuple', 'list', 'dict', 'set', 'slice'):
            return (op,) + self._args(a)
        return self.leaf(op, self._args(a, op))

    def _pow(self, v, e):
        if v == 0.0:
            if e > 0:
                return 0.0
            return self.leaf('div0', e)
        if v < 0 and e != int(e):
            self.undef = True
            return -self.leaf('neg') * abs(v) ** e
        return v ** e


def ri_equal(a, b, rounds=45, unv=False, force=None):
    """agree in every interpretation; a disagreement must show at each rounding of intermediate values"""
    for nd in (7, 9, 5):
        for k in range(rounds):
            r = RI(1000 + k, nd, unv, force)
            if not _close(r.ev(a), r.ev(b)) and not (r.signed and r.undef):
                break
        else:
            return True
    return False


class Solver(object):
    """find an interpretation of the leaves under which the given conditions hold"""
    def __init__(self, seed, nd, guards):
        self.seed = seed
        self.nd = nd
        self.rnd = random.Random(seed)
        self.R = RI(seed, nd, False, {})
        self.left = 90
        self.loose = False
        asg = {}
        self.steps = 400
        order = sorted(guards, key=lambda g: g[0].op in ('and', 'or', 'ite') and not ((g[0].op == 'and') == g[1] and g[0].op != 'ite'))
        lits = self.decide([g for g in order], asg)
        for rep in range(3):
            for c, v in (lits or {}).items():
                self.make(c, v)
            for c, v in guards:
                self.make(c, v)
            self.ok = self.left > 0 and all(self.holds(c, v) for c, v in guards)
            if self.ok or self.left <= 0:
                break
        if not self.ok and lits and self.left > 0:
            self.walk(lits, guards)

    def walk(self, lits, guards):
        """repair violated conditions one at a time, reassigning leaves"""
        self.loose = True
        todo = list(lits.items())
        for n in range(60):
            bad = [g for g in todo if not self.holds(*g)]
            if not bad:
                bad = [g for g in guards if not self.holds(*g)]
                if not bad:
                    self.ok = True
                    return
            self.left = 6
            self.make(*self.rnd.choice(bad))

    def value(self, c, asg, memo):
        """truth of a condition under a partial assignment: True, False or None"""
        r = memo.get(c, 0)
        if r != 0:
            return r
        op = c.op
        if op == 'not':
            r = self.value(c.args[0], asg, memo)
            r = None if r is None else not r
        elif op in ('and', 'or') and tm.is_bool(c):
            v = op == 'or'
            r = not v
            for x in c.args:
                k = self.value(x, asg, memo)
                if k == v:
                    r = v
                    break
                if k is None:
                    r = None
        elif op == 'ite':
            k = self.value(c.args[0], asg, memo)
            if k is None:
                a, b = self.value(c.args[1], asg, memo), self.value(c.args[2], asg, memo)
                r = a if a == b else None
            else:
                r = self.value(c.args[1 if k else 2], asg, memo)
        elif op == 'bool':
            r = c is TRUE
        elif op == 'none':
            r = False
        else:
            c2, v = self.atom(c, True)
            r = asg.get(c2)
            r = None if r is None else r == v
        memo[c] = r
        return r

    def decide(self, todo, asg):
        """truth values of the atomic conditions that satisfy the guards (search with propagation)"""
        self.steps -= 1
        if self.steps < 0:
            return None
        asg = dict(asg)
        while True:
            memo, rest, moved = {}, [], False
            for c, v in todo:
                k = self.value(c, asg, memo)
                if k is not None:
                    if k != v:
                        return None
                    continue
                while c.op == 'not':
                    c, v = c.args[0], not v
                op = c.op
                if op in ('and', 'or') and tm.is_bool(c):
                    if (op == 'and') == v:
                        rest.extend((x, v) for x in c.args)
                        moved = True
                        continue
                    opened = [x for x in c.args if self.value(x, asg, memo) is None]
                    if len(opened) == 1:
                        rest.append((opened[0], v))
                        moved = True
                    else:
                        rest.append((c, v))
                    continue
                if op == 'ite':
                    k = self.value(c.args[0], asg, memo)
                    if k is not None:
                        rest.append((c.args[1 if k else 2], v))
                        moved = True
                    else:
                        a, b = self.value(c.args[1], asg, memo), self.value(c.args[2], asg, memo)
                        if a == (not v):
                            rest += [(c.args[0], False), (c.args[2], v)]
                            moved = True
                        elif b == (not v):
                            rest += [(c.args[0], True), (c.args[1], v)]
                            moved = True
                        else:
                            rest.append((c, v))
                    continue
                c, v = self.atom(c, v)
                asg[c] = v
                memo = {}
                moved = True
            todo = rest
            if not moved:
                break
        if not todo:
            return asg
        c, v = min(todo, key=lambda g: len(g[0].args))
        todo = [g for g in todo if g != (c, v)]
        if c.op == 'ite':
            bs = [True, False]
            self.rnd.shuffle(bs)
            for b in bs:
                r = self.decide([(c.args[0], b), (c.args[1 if b else 2], v)] + todo, asg)
                if r is not None:
                    return r
            return None
        memo = {}
        xs = [x for x in c.args if self.value(x, asg, memo) is None]
        self.rnd.shuffle(xs)
        xs.sort(key=lambda x: x.op in ('and', 'or', 'ite'))
        for x in xs[:6]:
            r = self.decide([(x, v)] + todo, asg)
            if r is not None:
                return r
        return None

    @staticmethod
    def atom(c, v):
        if c.op == 'ne0':
            return T('eq0', c.args[0]), not v
        if c.op == 'ne':
            return T('eq', *c.args), not v
        if c.op == 'le0':
            return T('lt0', tm.neg(c.args[0])), not v
        return c, v

    def holds(self, c, v):
        return self.R.tru(self.R.ev(c)) == v

    def free(self, t):
        k = self.R.key(t)
        return k is not None and (self.loose or k not in self.R.force)

    def pin(self, t, v):
        k = self.R.key(t)
        if k is None:
            return False
        if k[0] in ('eq', 'isnone'):
            v = 0 if v else 1
        f = self.R.force
        f[k] = v
        self.R = RI(self.seed, self.nd, False, f)
        self.left -= 1
        return True

    def make(self, c, v):
        if self.left <= 0 or self.holds(c, v):
            return
        op = c.op
        if op == 'not':
            return self.make(c.args[0], not v)
        if (op == 'and') == v and op in ('and', 'or'):
            for x in c.args:
                self.make(x, v)
            return
        if op in ('and', 'or'):
            xs = list(c.args)
            self.rnd.shuffle(xs)
            for x in xs[:4]:
                self.make(x, v)
                if self.holds(c, v):
                    return
            return
        if op == 'ite':
            b = 1 if self.R.tru(self.R.ev(c.args[0])) else 2
            self.make(c.args[b], v)
            if not self.holds(c, v):
                self.make(c.args[0], b == 2)
                self.make(c.args[3 - b], v)
            return
        if op in ('lt0', 'le0', 'eq0', 'ne0'):
            if op == 'ne0':
                op, v = 'eq0', not v
            x = c.args[0]
            if op == 'eq0':
                targets = [0.0] if v else [1.0, -1.0]
            elif v:
                targets = [-1.0, -0.25]
            else:
                targets = [1.0, 0.25]
            if self.loose and op == 'eq0':
                self.rnd.shuffle(targets)
            if self.loose and op != 'eq0':
                targets = [x_ * self.rnd.choice((0.1, 0.5, 1.0, 4.0)) for x_ in targets]
            for tg in targets:
                if self.reach(x, tg) and self.R.tru(self.R.ev(c)) == (v if c.op != 'ne0' else not v):
                    return
            return
        if op in ('eq', 'ne'):
            want = v if op == 'eq' else not v
            x, y = c.args
            if want:
                for p, q in ((x, y), (y, x)):
                    if self.free(p):
                        self.pin(p, self.R.ev(q))
                        return
                self.pin(c, True)
            else:
                for p in (x, y):
                    if self.free(p):
                        self.pin(p, self.R.leaf('other', self.rnd.random()))
                        return
                self.pin(c, False)
            return
        if op == 'isnone':
            x = c.args[0]
            if x.op == 'ite':
                b = 1 if self.R.tru(self.R.ev(x.args[0])) else 2
                self.make(T('isnone', x.args[b]), v)
                if not self.holds(c, v):
                    self.make(x.args[0], b == 2)
                    self.make(T('isnone', x.args[3 - b]), v)
                return
            if v and self.free(x):
                self.pin(x, 'None')
            elif not self.pin(c, v) and not v:
                self.pin(x, self.R.leaf('other', self.rnd.random()))
            return
        if op in ('bool', 'none', 'num', 'str'):
            return
        if self.free(c):
            self.pin(c, v)

    def reach(self, x, tg):
        if x.op == 'call' and x.args[0] in MATHF and len(x.args[1]) == 1:
            n, y = x.args[0], x.args[1][0]
            try:
                if n == 'abs':
                    return tg >= 0 and self.reach(y, tg if self.rnd.random() < 0.5 else -tg)
                if n == 'numpy.log':
                    return self.reach(y, math.exp(tg))
                if n in ('numpy.log10', 'pow10'):
                    if n == 'pow10':
                        return tg > 0 and self.reach(y, math.log10(tg))
                    return self.reach(y, 10.0 ** tg)
                if n == 'numpy.exp':
                    return tg > 0 and self.reach(y, math.log(tg))
            except OverflowError:
                pass
            return False
        if x.op == 'pow' and x.args[1].op == 'num' and tg > 0:
            try:
                return self.reach(x.args[0], tg ** (1.0 / float(x.args[1].args[0])))
            except (OverflowError, ZeroDivisionError):
                return False
        if x.op not in INTERPRETED:
            if not self.free(x):
                return False
            if x.op in ('size', 'count', 'it'):
                tg = float(max(0, round(tg)))
            self.pin(x, tg)
            return True
        if x.op == 'sum':
            ms = [(c, m) for c, m in x.args if self.free(m)]
            self.rnd.shuffle(ms)
            if self.loose:
                # any summand may be the one to change
                ds = [(c, m) for c, m in x.args if (m.op in ('prod', 'pow', 'ite', 'max', 'min') or m.op == 'call' and m.args[0] in MATHF) and float(c) != 0]
                if ds and self.rnd.randrange(len(ds) + min(len(ms), 4)) < len(ds):
                    c, m = self.rnd.choice(ds)
                    rest = sum(float(c2) * self.R.f(self.R.ev(m2)) for c2, m2 in x.args if m2 is not m)
                    if self.reach(m, (tg - rest) / float(c)):
                        return True
            for c, m in ms[:4]:
                rest = 0.0
                for c2, m2 in x.args:
                    if m2 is not m:
                        rest += float(c2) * self.R.f(self.R.ev(m2))
                val = (tg - rest) / float(c)
                if m.op in ('size', 'count', 'it'):
                    val = float(round(val + (0.49 if (tg > 0) == (float(c) > 0) else -0.49)) if tg else round(val))
                    if val < 0:
                        continue
                self.pin(m, val)
                return True
            for c, m in x.args:
                if (m.op in ('prod', 'pow', 'ite', 'max', 'min') or m.op == 'call' and m.args[0] in MATHF) and float(c) != 0:
                    rest = sum(float(c2) * self.R.f(self.R.ev(m2)) for c2, m2 in x.args if m2 is not m)
                    if self.reach(m, (tg - rest) / float(c)):
                        return True
            return False
        if x.op == 'prod':
            for b, e in x.args:
                deep = b.op in ('sum', 'ite', 'max', 'min', 'pow') or b.op == 'call' and b.args[0] in MATHF
                if (self.free(b) or deep) and float(e) in (1.0, -1.0):
                    o = 1.0
                    for b2, e2 in x.args:
                        if b2 is not b:
                            try:
                                o *= self.R._pow(self.R.f(self.R.ev(b2)), float(e2))
                            except (OverflowError, ZeroDivisionError):
                                return False
                    if o == 0 or (tg == 0 and float(e) < 0):
                        continue
                    if deep:
                        if self.reach(b, tg / o if float(e) > 0 else o / tg):
                            return True
                        continue
                    self.pin(b, tg / o if float(e) > 0 else o / tg)
                    return True
            return False
        if x.op == 'ite':
            b = 1 if self.R.tru(self.R.ev(x.args[0])) else 2
            if self.loose and self.rnd.random() < 0.2:
                self.make(x.args[0], b == 2)
                b = 1 if self.R.tru(self.R.ev(x.args[0])) else 2
            return self.reach(x.args[b], tg)
        if x.op in ('max', 'min'):
            ys = list(x.args)
            if self.loose:
                self.rnd.shuffle(ys)
            for y in ys:
                if self.reach(y, tg):
                    return True
        return False


# interpretations without coincidences first: in the others equal values make conditions interfere
SEEDS = (1002, 1005, 1008, 1004, 1000, 1011, 1009, 1001)


def abstracted(guards):
    """the conditions with every term the analysis does not look into replaced by a symbol of its own"""
    memo, syms = {}, {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(i) for i in x)
        if not isinstance(x, Term):
            return x
        r = memo.get(x)
        if r is None:
            op = x.op
            if op in INTERPRETED or op in ('eq', 'ne', 'isnone') or op == 'call' and x.args[0] in MATHF and len(x.args[1]) == 1:
                r = tm.rebuild(x, go)
            else:
                r = T('sym', '$a%d' % x.uid)
                if op in ('size', 'count', 'it'):
                    r = T(op, r)
                syms[x] = r
            memo[x] = r
        return r
    return [(go(c), v) for c, v in guards], syms


def transfer(sv, syms, guards):
    """the interpretation of the terms themselves that agrees with the one found for their symbols; None if it breaks a condition"""
    force = {k: v for k, v in sv.R.force.items() if k[0] in ('eq', 'isnone')}
    full = RI(sv.seed, sv.nd, False, force)
    for x in sorted(syms, key=lambda x: x.uid):
        k = full.key(x)
        if k is not None and k not in force:      # terms that are congruent keep one value
            force[k] = sv.R.ev(syms[x])
            full = RI(sv.seed, sv.nd, False, force)
    return full if all(full.tru(full.ev(c)) == v for c, v in guards) else None


def witness(ta, ts, guards, tries=7):
    """an interpretation in which the conditions hold and the two values differ (at two roundings)"""
    ag, syms = abstracted(guards)
    for nd in (7, 9):
        found = False
        for k in range(tries):
            if _search['until'] is not None and time.process_time() > _search['until']:
                return False
            sv = Solver(SEEDS[k], nd, ag)
            if not sv.ok:
                continue
            R = transfer(sv, syms, guards)
            if R is None:
                sv = Solver(SEEDS[k], nd, guards)
                R = sv.R if sv.ok else None
            if R is not None and not _close(R.ev(ta), R.ev(ts)) and not (R.signed and R.undef):
                found = True
                break
        if not found:
            return False
    return True


def ite_paths(t, pre, out, n):
    if len(out) >= n:
        return
    if t.op == 'ite':
        ite_paths(t.args[1], pre + ((t.args[0], True),), out, n)
        ite_paths(t.args[2], pre + ((t.args[0], False),), out, n)
    elif t.op in ('and', 'or') and tm.is_bool(t):
        v = t.op == 'or'
        for x in t.args[:n]:
            out.append(pre + ((x, v),))
    elif pre:
        out.append(pre)


def pair_up(la, ls):
    """likely counterparts among the differing summands or factors"""
    if not la or len(la) > 30 or len(ls) > 30:
        return []
    left, out = list(ls), []
    for x, c in la:
        best = [(y, d) for y, d in left if d == c and y.op == x.op and len(y.args) == len(x.args)]
        if best:
            sx = set(subterms(x))
            y, d = max(best, key=lambda z: len(sx & set(subterms(z[0]))))
            left.remove((y, d))
            out.append((x, y))
            if len(out) >= 8:
                break
    return out


def locals_of(a, s, guards, out, budget, seen):
    """innermost structurally differing pairs, with the conditions leading to them"""
    if a is s or budget[0] <= 0:
        return
    gs = set(guards)
    if any((c, not v) in gs for c, v in gs):
        return
    n = seen.get((a, s), 0)
    if n >= 3:
        return
    seen[(a, s)] = n + 1
    budget[0] -= 1
    if a.op in ('lt0', 'le0', 'eq0', 'ne0') and s.op in ('lt0', 'le0', 'eq0', 'ne0'):
        out.append((a, s, guards))
    if a.op == s.op:
        if a.op == 'ite':
            c = a.args[0]
            if c is s.args[0]:
                locals_of(a.args[1], s.args[1], guards + ((c, True),), out, budget, seen)
                locals_of(a.args[2], s.args[2], guards + ((c, False),), out, budget, seen)
                return
            if a.args[1] is s.args[1] and a.args[2] is s.args[2]:
                locals_of(a.args[0], s.args[0], guards, out, budget, seen)
                return
            cs = s.args[0]
            locals_of(c, cs, guards, out, budget, seen)
            locals_of(a.args[1], s.args[1], guards + ((c, True), (cs, True)), out, budget, seen)
            locals_of(a.args[2], s.args[2], guards + ((c, False), (cs, False)), out, budget, seen)
        elif a.op == 'sum':
            A, S_ = dict((m, c) for c, m in a.args), dict((m, c) for c, m in s.args)
            la = [(m, c) for m, c in A.items() if S_.get(m) != c]
            ls = [(m, c) for m, c in S_.items() if A.get(m) != c]
            if len(la) == 1 and len(ls) == 1 and la[0][1] == ls[0][1]:
                locals_of(la[0][0], ls[0][0], guards, out, budget, seen)
                return
            for x, y in pair_up(la, ls):
                locals_of(x, y, guards, out, budget, seen)
        elif a.op == 'prod':
            A, S_ = dict(a.args), dict(s.args)
            la = [(m, c) for m, c in A.items() if S_.get(m) != c]
            ls = [(m, c) for m, c in S_.items() if A.get(m) != c]
            if len(la) == 1 and len(ls) == 1 and la[0][1] == ls[0][1]:
                locals_of(la[0][0], ls[0][0], guards, out, budget, seen)
                return
            for x, y in pair_up(la, ls):
                locals_of(x, y, guards, out, budget, seen)
        elif a.op in ('and', 'or'):
            la = [x for x in a.args if x not in s.args]
            ls = [x for x in s.args if x not in a.args]
            g = tuple((x, a.op == 'and') for x in a.args if x in s.args)
            if len(la) == 1 and len(ls) == 1:
                locals_of(la[0], ls[0], guards + g, out, budget, seen)
                return
            out.append((a, s, guards + g))
            return
        elif a.op in ('min', 'max'):
            la = [x for x in a.args if x not in s.args]
            ls = [x for x in s.args if x not in a.args]
            if len(la) == 1 and len(ls) == 1:
                locals_of(la[0], ls[0], guards, out, budget, seen)
                return
        elif len(a.args) == len(s.args) and a.args:
            pend = []

            def walk(x, y):
                if isinstance(x, Term) and isinstance(y, Term):
                    pend.append((x, y))
                    return True
                if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                    return all([walk(p, q) for p, q in zip(x, y)])
                return x == y
            if all([walk(x, y) for x, y in zip(a.args, s.args)]):
                for x, y in pend:
                    locals_of(x, y, guards, out, budget, seen)
                return
    out.append((a, s, guards))


_eq_memo = {}
_search = {'until': None, 'spent': 0.0, 'cut': False, 'found': False, 'weak': 0}
_weak = set()       # pairs of large terms in which no difference was found, though they are not identical
_loc_fail = {}


def search_limit():
    """processor seconds for the search for one difference; shrinks when a function needs many"""
    if _search['found']:
        return 0.3
    return 12.0 if _search['spent'] < 45 else 3.0 if _search['spent'] < 90 else 0.4


def equal(a, s, under=TRUE, limit=None):
    """equality of two values: random interpretation, directed at every place where the normal forms differ"""
    if a is s:
        return True
    k = (a, s, under) if limit is None else (a, s, under, limit)
    if k in _eq_memo:
        _search['weak'] += k in _weak
        return _eq_memo[k]
    t0 = time.process_time()
    _search['until'] = t0 + (search_limit() if limit is None else limit)
    _search['cut'] = False
    r = _eq_memo[k] = _equal(a, s, under)
    if r and (_search['cut'] or sum(1 for _ in subterms(a)) > 400 or sum(1 for _ in subterms(s)) > 400):
        _weak.add(k)
    _search['spent'] += time.process_time() - t0
    _search['weak'] += k in _weak
    return r


def _equal(a, s, under):
    if under is not TRUE:
        ta, ts = T('ite', under, a, NONE), T('ite', under, s, NONE)
    else:
        ta, ts = a, s
    if not ri_equal(a, s) and (under is TRUE or not ri_equal(ta, ts)):
        return False
    out = []
    locals_of(ta, ts, (), out, [500], {})
    sides = []
    n = 0
    for x, y, guards in out:
        paths = []
        if x.op in ('ite', 'and', 'or') or y.op in ('ite', 'and', 'or'):
            ite_paths(x, (), paths, 14)
            ite_paths(y, (), paths, 28)
            if tm.is_bool(x) and tm.is_bool(y):
                paths = [((x, True), (y, False)), ((x, False), (y, True))] + \
                    [p + ((y, not w),) for w in (True, False) for p in paths[:10] if p[-1][1] == w] + \
                    [p + ((x, not w),) for w in (True, False) for p in paths[-10:] if p[-1][1] == w] + paths
        elif tm.is_bool(x) and tm.is_bool(y):
            paths = [((x, True), (y, False)), ((x, False), (y, True))]
        neg_ = []
        sx, sy = set(w for w in subterms(x) if w.op in ('min', 'max')), set(w for w in subterms(y) if w.op in ('min', 'max'))
        for z in (x, y):
            for w in subterms(z):
                if w.op == 'call' and w.args[0] == 'abs' and len(neg_) < 4:
                    neg_.append(((T('lt0', w.args[1][0]), True),))
                if (w in sx) != (w in sy) and len(w.args) == 2 and len(sides) < 12:
                    d = tm.lt(w.args[0], w.args[1])
                    sides += [guards + ((d, True),), guards + ((d, False),)]
        if not paths and not neg_ and ri_equal(x, y, 60):
            continue
        paths += neg_
        paths.insert(0, ())
        hard = _loc_fail.get((x, y), 0)
        _loc_fail[x, y] = hard + 1
        for p in paths[:40 if hard < 2 else 6 if hard < 6 else 2]:
            n += 1
            if n > 120 or time.process_time() > _search['until']:
                _search['cut'] = True
                return True
            if witness(ta, ts, guards + p):
                return False
    if sides and (sum(1 for _ in subterms(ta)) > 300 or sum(1 for _ in subterms(ts)) > 300):
        sides = []
    for p in sides:         # either side of a limit that only one of the two has
        n += 1
        if n > 120 or time.process_time() > _search['until']:
            break
        if witness(ta, ts, p):
            return False
    return True


def _close(x, y):
    if isinstance(x, float) and isinstance(y, float):
        if x == y or (x != x and y != y):
            return True
        return abs(x - y) <= 1e-6 * max(1e-3, abs(x), abs(y))
    return x == y


# ------------------------------------------------------------------ effects
IGNORE_CALL = ('print', 'warnings.warn', 'time.time', 'gc.collect', 'sys.stdout.flush')
IGNORE_METH = ('info', 'warning', 'debug', 'error', 'critical', 'exception', 'flush', 'start_file_logging',
               'stop_file_logging')
EFFECT_EXT = ('os.remove', 'os.unlink', 'os.rename', 'os.replace', 'os.makedirs', 'os.mkdir', 'os.rmdir', 'os.link',
              'os.symlink', 'os.chdir', 'os.open', 'os.close', 'os.write', 'shutil.copy', 'shutil.move', 'shutil.rmtree',
              'subprocess.call', 'subprocess.run', 'subprocess.check_call', 'fitsio.write', 'yaml.dump', 'os.kill',
              'numpy.random.seed', 'numpy.random.shuffle', 'numpy.save', 'numpy.savetxt', 'numpy.put', 'numpy.add.at',
              'os.chmod', 'esutil.io.write', 'healsparse.write')
EFFECT_METH = ('write', 'write_key', 'write_keys', 'write_table', 'writelines', 'extend', 'update', 'sort', 'close', 'remove', 'insert',
               'clear', 'pop', 'release', 'acquire', 'map', 'starmap', 'apply_async', 'imap', 'map_async', 'join', 'start',
               'seed', 'put', 'fill', 'lock', 'unlock', 'update_values_pix', 'append', 'dump', 'makedirs', 'terminate',
               'write_column', 'create_table_hdu', 'add_argument')


class Effects(object):
    """which functions of the tree may have an effect visible to the caller"""
    def __init__(self, repo, interp):
        self.repo = repo
        self.I = interp
        self.memo = {}

    def has(self, f):
        if f.where in self.memo:
            return self.memo[f.where]
        self.memo[f.where] = False
        r = bool(self.I.modset(f)) or self._io(f, set())
        self.memo[f.where] = r
        return r

    def _io(self, f, seen):
        if f.where in seen:
            return False
        seen.add(f.where)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Raise):
                return True
            if not isinstance(n, ast.Call):
                continue
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', None)
            if nm in ('write', 'to_fits_file', 'remove', 'unlink', 'rename', 'makedirs', 'save', 'savefig', 'dump', 'open'):
                return True
            for g in self.repo.methods_named(nm or '')[:4]:
                if self._io(g, seen):
                    return True
            if isinstance(n.func, ast.Name):
                g = self.repo.resolve_name(f.mod, n.func.id)
                if isinstance(g, Func) and self._io(g, seen):
                    return True
        return False


def ignorable_call(e):
    n = e.callee
    if isinstance(n, str):
        if n in IGNORE_CALL or n in IGNORE_METH or n.startswith('matplotlib') or n.startswith('time.'):
            return True
    return False


def is_file(b):
    """an open table file or one of its tables"""
    while b is not None and b.op in ('idx', 'ite'):
        b = b.args[0] if b.op == 'idx' else b.args[2] if b.args[1].op in ('none', 'undef') else b.args[1]
    return b is not None and b.op == 'call' and b.args[0] == 'fitsio.FITS'


def effectful(e, eff, repo):
    if e.kind != 'call' or ignorable_call(e):
        return False
    n = e.callee
    if not isinstance(n, str):
        return False
    if e.base is None and not n[:1].isupper() and '.' in n:
        return n in EFFECT_EXT or n.startswith('numpy.random.') or n.startswith('fitsio.write')
    if n in repo.classes:
        return False
    fs = repo.methods_named(n) if e.base is not None else []
    if e.base is None:
        for m in repo.modules.values():
            if n in m.functions:
                fs = [m.functions[n]]
    if e.term is not None and e.term.op == 'call' and isinstance(e.term.args[0], Term) and e.term.args[0].op in ('meth', 'fnq') and fs and not e.args:
        return any(eff.has(f) for f in fs)
    if n in EFFECT_METH:
        # appends to local lists are values, not effects
        if n in ('append',) and not is_file(e.base) or n == 'extend' and e.base is not None and seq_like(e.base):
            return False
        return True
    if fs:
        return any(eff.has(f) for f in fs)
    return False


# ------------------------------------------------------------------ summaries
class Summary(object):
    pass


def persistent(b):
    r = root(b)
    while r.op in ('mu', 'out', 'last', 'ite', 'call') and r.args:
        if r.op == 'ite':
            return persistent(r.args[1]) or persistent(r.args[2])
        if r.op == 'call':
            f = r.args[0]
            return False
        if r.op == 'mu':
            r = root(r.args[1])
        elif r.op == 'out':
            r = root(r.args[0] if len(r.args) == 1 else r.args[1])
        else:
            r = root(r.args[1])
    return r.op in ('sym', 'cls')


def share(t, depth=0):
    """the objects a value may share its storage with -> {(canonical object, 'same'|'shallow')}, and what it copies"""
    if depth > 12:
        return set(), set()
    op, a = t.op, t.args
    if op == 'copy':
        s_, c_ = share(a[0], depth + 1)
        if a[1] == 'shallow':
            return set((x, 'shallow') for x, k in s_), c_ | set((x, 'shallow') for x, k in s_)
        return set(), c_ | set((x, 'deep') for x, k in s_)
    if op in ('attr', 'attrv', 'sym', 'elem'):
        return {(unversion(t), 'same')}, set()
    if op == 'ite':
        (s1, c1), (s2, c2) = share(a[1], depth + 1), share(a[2], depth + 1)
        return s1 | s2, c1 | c2
    if op == 'upd':
        return share(a[0], depth + 1)
    if op == 'idx' and a[1].op in ('slice', 'tuple', 'num', 'it'):
        return share(a[0], depth + 1)
    if op == 'out' and a[0].op == 'mu':
        return share(a[0], depth + 1)
    if op == 'mu':
        (s1, c1), (s2, c2) = share(a[1], depth + 1), share(a[2], depth + 1)
        return s1 | s2, c1 | c2
    return set(), set()


def branches(x, depth=0):
    if x.op == 'ite' and depth < 8:
        return branches(x.args[1], depth + 1) + branches(x.args[2], depth + 1)
    if x.op in ('upd',):
        return branches(x.args[0], depth + 1)
    return [x]


def cell_base(b):
    """name of the object that owns a cell; a copy is an object of its own"""
    path = set()
    r = b
    while isinstance(r, Term):
        path.add(r)
        r = r.args[0] if r.op in ('attr', 'attrv', 'idx', 'elem', 'copy', 'cast') else None
    if not any(x.op == 'copy' for x in path):
        return unversion(b)

    def go(x):
        if x.op == 'copy':
            y = go(x.args[0])
            return y if y.op == 'copied' else T('copied', y)
        if x.op in ('attr', 'attrv'):
            return T('attr', go(x.args[0]), x.args[1])
        if x.op in ('idx', 'elem'):
            return T(x.op, go(x.args[0]), *[unversion(y) if isinstance(y, Term) else y for y in x.args[1:]])
        if x.op == 'cast':
            return go(x.args[0])
        return unversion(x)
    return go(b)


def summarise(repo, func, selfcls, inline=(), atomic=(), args=None, hints=None, specs=None):
    I = Interp(repo, inline=inline, atomic=atomic, hints=hints, specs=specs)
    I.run(func, selfcls=selfcls, args=args)
    eff = getattr(repo, '_eff', None)
    if eff is None:
        eff = repo._eff = Effects(repo, I)
    S = Summary()
    S.I = I
    S.ret = canon(I.final.env.get('$ret', NONE))
    S.retcond = canon(or_(*[r[0] for r in I.returns])) if I.returns else FALSE
    S.heap = {}
    S.where = {}
    S.own = {'return value': share(I.final.env.get('$ret', NONE))}
    nophi = lambda t: rewrite(unversion(t), lambda y: T('phi', y.args[1]) if y.op == 'phi' and len(y.args) > 1 else None, {})
    S.copies = [(nophi(x), kind, ln) for x, kind, ln in I.copies]
    S.inplace = [(nophi(y), ln) for x, ln in I.inplace for y, how in share(x)[0] if how == 'same']
    S.inplace += [(nophi(y), ln) for x, ln in I.inplace for y in branches(x) if any(how == 'same' for z, how in share(y)[0])]
    S.shared_inplace = [(nophi(x), ln) for x, ln in I.shared_inplace]
    for (b, a), v in I.final.heap.items():
        k = (cell_base(b), a)
        if k not in S.own:
            S.own[k] = share(v)
        cv = canon(v)
        # an unchanged cell is not an effect
        if cv is T('attr', canon(b), a):
            continue
        if k in S.heap and S.heap[k] is not cv:
            S.heap[k] = T('multi', *sorted([S.heap[k], cv], key=lambda t: t.uid))
        else:
            S.heap[k] = cv
    for k, v in I.final.env.items():
        if k.startswith('$@') and canon(v) is not T('sym', k[2:]):
            S.heap[(T('sym', k[2:]), 'contents')] = canon(v)
    for e in I.events:
        if e.kind == 'store' and e.attr is None and root(e.base).op == 'sym':
            S.where.setdefault((root(e.base), 'contents'), []).append(e)
        if e.kind == 'store' and e.attr is not None:
            S.where.setdefault((cell_base(e.base), e.attr), []).append(e)
    S.calls = []
    S.raises = []
    for e in I.events:
        if e.kind == 'raise':
            ty = e.value
            nm = ty.args[0] if ty.op in ('new', 'call') and isinstance(ty.args[0], str) else (ty.args[0] if ty.op == 'sym' else 'exc')
            S.raises.append((nm, canon(e.guard), e))
        elif effectful(e, eff, repo):
            lo = tuple(canon(l[4]) if l[4] is not None else T('loopk', l[1], canon(l[2]), FALSE) for l in e.loops)
            gd = canon(e.guard)
            if e.callee == 'os.makedirs' and e.args and e.kwargs.get('exist_ok') is TRUE:
                # a directory that is there already is left alone
                gd = tm.rewrite(gd, lambda x: FALSE if x.op == 'call' and x.args[0] in ('os.path.exists', 'os.path.isfile', 'os.path.isdir') and x.args[1][:1] == (canon(e.args[0]),) else None)
            S.calls.append((e.callee, canon(e.term), gd, lo, e))
    S.events = I.events
    S.reads = [(unversion(canon(e.term)), canon(e.guard), e) for e in I.events if e.kind in ('call', 'fsread') and e.callee in FSREADS]
    S.callees = set(c for c in (e.callee for e in I.events if e.kind == 'call') if isinstance(c, str))
    S.inlined = I.inlined
    return S


# ------------------------------------------------------------------ difference
UNKNOWN_OPS = ('opaque', 'closure', 'star', 'excval', 'undef', 'super', 'multi')
LOOP_OPS = ('mu', 'mu0', 'out', 'last', 'loopk', 'exited', 'comp', 'gen', 'first')


def load_vocab():
    p = os.path.join(HERE, 'vocab.json')
    if os.path.exists(p):
        with open(p) as f:
            return set(json.load(f))
    return set()


VOCAB = load_vocab()
# these bring in information that no other expression has
SOURCES = ('os.getpid', 'os.getppid', 'socket.gethostname', 'uuid.uuid4', 'os.getcwd', 'time.time', 'os.environ.get', 'os.getenv', 'random.random')


def has_unknown(t, ref_names=frozenset()):
    for x in subterms(t):
        if x.op in UNKNOWN_OPS:
            return x.op
        if x.op == 'call':
            n = x.args[0]
            nm = n if isinstance(n, str) else (n.args[-1] if n.op in ('meth', 'fnq') else None)
            if nm is None:
                if isinstance(n, Term) and n.op in ('attr', 'attrv', 'cls', 'sym'):
                    continue
                return 'call'
            nm = nm.split('@')[0]
            if nm in VOCAB or nm in PURE_EXT or nm in ref_names or nm in SOURCES:
                continue
            return 'call:' + str(nm)
    return None


def unknowns(t):
    out = set()
    for x in subterms(t):
        if x.op in UNKNOWN_OPS:
            out.add(x.op)
        if x.op == 'call':
            n = x.args[0]
            nm = n if isinstance(n, str) else (n.args[-1] if n.op in ('meth', 'fnq') else None)
            if nm is None:
                if isinstance(n, Term) and n.op in ('attr', 'attrv', 'cls', 'sym'):
                    continue
                out.add('call')
            elif not (nm in VOCAB or nm in PURE_EXT):
                out.add('call:' + str(nm))
    return out


def anon_callees(t):
    """callees that are values (a function picked at run time), not names"""
    return set(x.args[0] for x in subterms(t) if x.op == 'call' and isinstance(x.args[0], Term)
               and x.args[0].op not in ('meth', 'fnq', 'attr', 'attrv', 'cls', 'sym'))


def eqv(a, b):
    return equal(a, b)


def operands(t, depth=0):
    """the operands of an elementwise expression"""
    if depth > 6:
        return
    yield t
    if t.op in ('sum', 'prod', 'min', 'max', 'pow') or t.op == 'call' and t.args[0] in tm.ELEMENTWISE:
        stack = list(t.args[1] if t.op == 'call' else t.args)
        while stack:
            x = stack.pop()
            if isinstance(x, Term):
                for y in operands(x, depth + (x.op != 'prod')):
                    yield y
            elif isinstance(x, tuple):
                stack.extend(x)


def weight(t, limit=40):
    """number of nodes, up to a limit"""
    n, stack = 0, [t]
    while stack and n <= limit:
        x = stack.pop()
        if isinstance(x, Term):
            n += 1
            stack.extend(x.args)
        elif isinstance(x, tuple):
            stack.extend(x)
    return n


HARD = set(['mu', 'mu0', 'out', 'last', 'loopk', 'gen', 'comp', 'elem', 'it', 'first', 'exited', 'exc', 'opaque', 'undef', 'phi', 'lam', 'closure'])


def plain(x, y):
    """a difference that does not come from the form of the code: two short values without iteration"""
    if x.op == y.op == 'call' and x.args[0] == y.args[0] and x.args[1] == y.args[1] and set(k for k, v in x.args[2]) != set(k for k, v in y.args[2]):
        return False
    return weight(x) <= 14 and weight(y) <= 14 and not any(z.op in HARD for t in (x, y) for z in subterms(t))


def diff_pairs(a, s, out, budget, under=TRUE):
    """minimal differing pairs of subterms"""
    if a is s or budget[0] <= 0:
        return
    budget[0] -= 1
    if len(budget) > 1 and time.process_time() > budget[1]:
        return
    if ri_equal(a, s, 15) and ((a, s, TRUE) not in _eq_memo or _eq_memo[a, s, TRUE]) and equal(a, s, limit=0.6):
        return
    if under is not TRUE and a.op != 'ite' and weight(a) < 40 and weight(s) < 40 and equal(a, s, under, limit=0.6):
        return
    n0 = len(out)
    if a.op == s.op == 'ite' and a.args[0] is s.args[0]:
        c = a.args[0]
        for x, y, g in ((a.args[1], s.args[1], c), (a.args[2], s.args[2], not_(c))):
            diff_pairs(x, y, out, budget, and_(under, g) if weight(c) < 60 else under)
        if len(out) == n0:
            out.append((a, s))
        return
    if a.op == s.op == 'ite':
        diff_pairs(a.args[0], s.args[0], out, budget, under)
        n1 = len(out)
        diff_pairs(a.args[1], s.args[1], out, budget, under)
        diff_pairs(a.args[2], s.args[2], out, budget, under)
        if len(out) == n0:
            out.append((a, s))
        return
    if a.op == s.op == 'size' and (s.args[0] in set(operands(a.args[0])) or a.args[0] in set(operands(s.args[0]))):
        # the size of an array and of an elementwise expression over it
        out.append((T('shape'), T('shape')))
        return
    if a.op == s.op:
        if a.op in ('sum',):
            A, S_ = dict((m, c) for c, m in a.args), dict((m, c) for c, m in s.args)
            la = [(m, c) for m, c in A.items() if S_.get(m) != c]
            ls = [(m, c) for m, c in S_.items() if A.get(m) != c]
            if len(la) == 1 and len(ls) == 1 and la[0][1] == ls[0][1]:
                diff_pairs(la[0][0], ls[0][0], out, budget)
        elif a.op == 'prod':
            A, S_ = dict(a.args), dict(s.args)
            la = [(m, c) for m, c in A.items() if S_.get(m) != c]
            ls = [(m, c) for m, c in S_.items() if A.get(m) != c]
            if len(la) == 1 and len(ls) == 1 and la[0][1] == ls[0][1]:
                diff_pairs(la[0][0], ls[0][0], out, budget)
        elif a.op in ('and', 'or', 'min', 'max'):
            la = [x for x in a.args if x not in s.args]
            ls = [x for x in s.args if x not in a.args]
            if len(la) == 1 and len(ls) == 1:
                diff_pairs(la[0], ls[0], out, budget)
        elif len(a.args) == len(s.args):
            ok = True
            pend = []

            def walk(x, y):
                nonlocal ok
                if isinstance(x, Term) and isinstance(y, Term):
                    pend.append((x, y))
                elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                    for p, q in zip(x, y):
                        walk(p, q)
                elif x != y:
                    ok = False
            for x, y in zip(a.args, s.args):
                walk(x, y)
            if ok:
                for x, y in pend:
                    diff_pairs(x, y, out, budget)
    if len(out) == n0:
        out.append((a, s))


def loop_keys(t):
    return set((z.op, z.args[0]) for z in subterms(t) if z.op in LOOP_OPS)


def classify(a, s, ref_names, under=TRUE):
    """EQ / DIFF / UNDEC with explanation"""
    if eqv(a, s):
        return 'EQ', ''
    if under is not TRUE and equal(a, s, under):
        return 'EQ', ''
    memo = _search.setdefault('late', {})
    a2, s2 = tm.late(a, memo), tm.late(s, memo)
    if a2 is s2 or (a2 is not a or s2 is not s) and eqv(a2, s2):
        return 'EQ', ''
    a, s = a2, s2
    out = []
    diff_pairs(a, s, out, [400, time.process_time() + search_limit()])
    if not out:
        out = [(a, s)]
    undec = None
    us = unknowns(s)
    anon = anon_callees(s)
    same_loops = _search.get('same_loops') or loop_keys(a) == loop_keys(s)
    for x, y in out:
        if x.op == 'shape':
            undec = 'size of an elementwise expression'
            continue
        u = has_unknown(x, ref_names)
        ux = us if anon_callees(x) <= anon else us - set(['call'])
        if u and u in ux:
            u = next((w for w in sorted(unknowns(x)) if w not in ux and (not w.startswith('call:') or w[5:] not in ref_names)), None)
        if u and u in unknowns(y):
            u = next((w for w in sorted(unknowns(x)) if w not in unknowns(y) and (not w.startswith('call:') or w[5:] not in ref_names)), None)
        lx = any(z.op in LOOP_OPS for z in subterms(x))
        ly = any(z.op in LOOP_OPS for z in subterms(y))
        if u:
            undec = 'construct outside the analysed vocabulary: %s' % u
            continue
        if lx != ly and not same_loops:
            undec = 'iteration expressed in another form'
            continue
        if not _search.get('same_loops') and x.op in ('loopk', 'gen', 'mu', 'comp') and y.op in ('loopk', 'gen', 'mu', 'comp') and \
                (x.op != y.op or x.args[0] != y.args[0]):
            undec = 'iteration expressed in another form'
            continue
        if _search.get('over_values') and (lx and ly or stepped(x) and stepped(y)):
            undec = 'the loop runs over the values themselves'
            continue
        if (x.op == 'call' and x.args[0] in ('numpy.any', 'numpy.all')) != (y.op == 'call' and y.args[0] in ('numpy.any', 'numpy.all')) and \
                (tm.is_bool(x) or tm.is_bool(y)) and reductions(x) and reductions(y):
            undec = 'a statement on all elements made in another way'
            continue
        if _search.get('over_values') and set((x.op, y.op)) == set(('size', 'count')):
            undec = 'the loop runs over the values themselves'
            continue
        if _search.get('over_values') and (x.op == 'size') != (y.op == 'size') and 'count' not in (x.op, y.op) and 'num' not in (x.op, y.op):
            undec = 'the loop runs over the values themselves'
            continue
        if _search.get('relaid', True) and shapers(x) != shapers(y) and not (x.op == y.op == 'call' and x.args[0] == y.args[0]):
            undec = 'shape of the array laid out in another way'
            continue
        if unversion(x) is unversion(y):
            vx = any(z.op == 'attrv' for z in subterms(x))
            vy = any(z.op == 'attrv' for z in subterms(y))
            if vx == vy:
                undec = 'only the order of opaque updates differs'
                continue
        if _search.get('restructured') and (_search['restructured'] == 'order of the loops' or not plain(x, y)):
            undec = 'the code was rearranged (%s) and the values are not comparable' % _search['restructured']
            continue
        return 'DIFF', 'found %s where the reference has %s' % (short(x), short(y))
    return 'UNDEC', undec


SHAPERS = set(['numpy.tile', 'numpy.reshape', 'numpy.repeat', 'numpy.transpose', 'numpy.outer', 'numpy.broadcast_to',
               'numpy.squeeze', 'numpy.ravel', 'numpy.expand_dims', 'numpy.meshgrid', 'numpy.flatten'])


def shapers(t):
    """operations that only lay an array out"""
    out = set()
    for x in subterms(t):
        if x.op == 'call' and x.args[0] in SHAPERS:
            out.add(x.args[0])
        elif x.op == 'sym' and x.args[0] == 'numpy.newaxis':
            out.add('newaxis')
        elif x.op == 'idx' and (x.args[1].op == 'none' or x.args[1].op == 'tuple' and any(z.op == 'none' for z in x.args[1].args)):
            out.add('newaxis')
        elif x.op == 'attr' and x.args[1] == 'T':
            out.add('numpy.transpose')
    return out


def stepped(t):
    return any(x.op in ('it', 'elem') for x in subterms(t))


def reductions(t):
    return any(x.op == 'count' or x.op == 'call' and x.args[0] in ('numpy.any', 'numpy.all', 'numpy.min', 'numpy.max', 'numpy.sum', 'min', 'max')
               or x.op in ('min', 'max') for x in subterms(t))


def layouts(node):
    out = []
    for x in ast.walk(node):
        if isinstance(x, ast.Attribute) and ('numpy.' + x.attr in SHAPERS or x.attr in ('newaxis', 'T')):
            out.append(x.attr)
        elif isinstance(x, ast.Subscript) and any(isinstance(y, ast.Constant) and y.value is None for y in ([x.slice] + list(getattr(x.slice, 'elts', ())))):
            out.append('newaxis')
    return sorted(out)


def short(t, n=260):
    s = show(t)
    return s if len(s) <= n else s[:n] + '...'


class Finding(object):
    def __init__(self, status, obs, detail, where=None, line=None):
        self.status, self.obs, self.detail, self.where, self.line = status, obs, detail, where, line
        if status == 'DIFF':
            _search['found'] = True

    def __repr__(self):
        return '%s %s (%s:%s) %s' % (self.status, self.obs, self.where, self.line, self.detail)


def cellname(k):
    return '%s.%s' % (short(k[0], 60), k[1])


def all_loops(X):
    out = loop_keys(X.ret)
    for v in X.heap.values():
        out |= loop_keys(v)
    for c in X.calls:
        out |= loop_keys(c[1]) | loop_keys(c[2])
        for l in c[3]:
            out |= loop_keys(l)
    return set(k for op, k in out)


def mentions(X, b):
    """does an observable of the summary hand on this object?"""
    if getattr(X, '_ment', None) is None:
        X._ment = set(subterms(X.ret))
        for c in X.calls:
            X._ment.update(subterms(c[1]))
        for v in X.heap.values():
            X._ment.update(subterms(v))
    while b not in X._ment:
        if b.op not in ('attr', 'attrv'):
            return False
        b = b.args[0]
    return True


def loop_headers(node):
    out = []
    for x in ast.walk(node):
        if isinstance(x, ast.For):
            out.append('for ' + ast.unparse(x.iter))
        elif isinstance(x, ast.While):
            out.append('while ' + ast.unparse(x.test))
        elif isinstance(x, ast.comprehension):
            out.append('in ' + ast.unparse(x.iter))
    return sorted(out)


def ranges(node):
    """how many loops count, how many run over values"""
    hs = [h.split(' ', 1)[1].startswith('range(') for h in loop_headers(node) if not h.startswith('while')]
    return sum(hs), len(hs) - sum(hs)


def loop_order(node):
    out = []

    def go(x):
        if isinstance(x, ast.For):
            out.append('for ' + ast.unparse(x.iter))
        elif isinstance(x, ast.While):
            out.append('while ' + ast.unparse(x.test))
        for y in ast.iter_child_nodes(x):
            go(y)
    go(node)
    return out


def shape(node):
    """loops, nested functions and exception handlers of a definition"""
    c = {}
    for x in ast.walk(node):
        k = {'For': 'for', 'While': 'while', 'comprehension': 'comp', 'FunctionDef': 'def', 'Lambda': 'def', 'Try': 'try', 'With': 'with'}.get(type(x).__name__)
        if k:
            c[k] = c.get(k, 0) + 1
    return c


def statements(node, nodes=False):
    out = []
    for x in ast.walk(node):
        if isinstance(x, ast.stmt) and not isinstance(x, (ast.FunctionDef, ast.Import, ast.ImportFrom, ast.Pass)):
            if isinstance(x, ast.If) or isinstance(x, ast.While):
                d = type(x).__name__ + ast.dump(x.test), x.test
            elif isinstance(x, ast.For):
                d = 'For' + ast.dump(x.iter), x.iter
            elif isinstance(x, ast.Try):
                d = 'Try', ast.Pass()
            elif isinstance(x, ast.With):
                d = 'With' + ''.join(ast.dump(i) for i in x.items), ast.Tuple([i.context_expr for i in x.items], ast.Load())
            elif isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                continue
            else:
                d = ast.dump(x), x
            out.append(d if nodes else d[0])
    return out


def reduced(a, s):
    """a loop or handler was taken out and what is left of its statements does nothing new"""
    da = dict((d, x) for d, x in statements(a, True))
    ds = dict((d, x) for d, x in statements(s, True))
    gone = [x for d, x in ds.items() if d not in da]
    new = [x for d, x in da.items() if d not in ds]
    if len(gone) > 3 or len(new) > 1:
        return False
    if any(isinstance(t, ast.Subscript) for x in gone for t in getattr(x, 'targets', ())):
        return False    # an array filled element by element

    def does(xs):
        r = set()
        for x in xs:
            for y in ast.walk(x):
                if isinstance(y, ast.Call):
                    r.add(ast.dump(y.func))
                    r.update('%s=' % w.arg for w in y.keywords)
                elif isinstance(y, (ast.BinOp, ast.BoolOp, ast.UnaryOp)):
                    r.add(type(y.op).__name__)
                elif isinstance(y, ast.Compare):
                    r.add(type(y.ops[0]).__name__)
                elif isinstance(y, (ast.Slice, ast.IfExp, ast.Dict, ast.JoinedStr)):
                    r.add(type(y).__name__)
        return r
    return does(new) <= does(gone)


def rearranged(repo, f, sf, A, S):
    """was the definition rearranged (helpers, loops, many statements) rather than edited in place"""
    base = Interp(repo).baseline
    new = sorted(w for w in A.inlined - S.inlined if w not in base)
    if new:
        return 'new helper ' + new[0]
    a, s = shape(f.node), shape(sf.node)
    if a != s and all(a.get(k, 0) <= s.get(k, 0) for k in a) and reduced(f.node, sf.node):
        return ''
    la, ls = loop_order(f.node), loop_order(sf.node)
    if la != ls and sorted(la) == sorted(ls):
        return 'order of the loops'
    if a != s:
        k = sorted(k for k in set(a) | set(s) if a.get(k) != s.get(k))
        return 'other number of %s' % ', '.join(k)
    sa, ss = statements(f.node), statements(sf.node)
    gone = 0
    for x in ss:
        if x in sa:
            sa.remove(x)
        else:
            gone += 1
    if max(gone, len(sa)) >= 5:
        return '%d statements' % max(gone, len(sa))
    return ''


def pair_objects(A, S):
    """fresh arrays of one function that were made with another size or type: same fields, one of each"""
    def only(X, Y):
        ys = set(b for b, _ in Y.heap)
        d = {}
        for b, n in X.heap:
            if b not in ys and (b.op == 'alloc' or b.op == 'call' and isinstance(b.args[0], Term) and b.args[0].op == 'meth' and b.args[0].args[0].op == 'cls'):
                d.setdefault(b, set()).add(n)
        g = {}
        for b, ns in d.items():
            g.setdefault((b.args[0], frozenset(ns)), []).append(b)
        return g
    ga, gs = only(A, S), only(S, A)
    return dict((ga[k][0], gs[k][0]) for k in ga if k in gs and len(ga[k]) == len(gs[k]) == 1)


def compare(A, S, func, want=None, same_loops=False):
    """A: summary of the tree's function, S: of the reference. -> [Finding]"""
    out = []
    ref_names = S.callees
    # the same loops on both sides, taken over the whole function: no loop was rewritten
    _search['same_loops'] = same_loops or all_loops(A) == all_loops(S)
    w = func.where
    want = want or {}
    skip_cells = set(want.get('skip_cells', ()))
    only_cells = want.get('cells')
    skip_calls = set(want.get('skip_calls', ()))
    only_calls = want.get('calls')

    def loc(k):
        ev = A.where.get(k)
        return (ev[-1].where, ev[-1].line) if ev else (w, func.node.lineno)

    if want.get('ret', True):
        st, d = classify(A.ret, S.ret, ref_names, S.retcond)
        ev = [e for e in A.events if e.kind == 'return']
        out.append(Finding(st, 'return value', d, w, ev[-1].line if ev else func.node.lineno))
    keys = set(A.heap) | set(S.heap)
    smemo = {}

    def nm(b):
        if b not in smemo:
            smemo[b] = show(b, 6)[:80]
        return smemo[b]
    paired = pair_objects(A, S)
    for k in sorted(keys, key=lambda k: (nm(k[0]), k[1])):
        if k[1] in skip_cells or (only_cells is not None and k[1] not in only_cells):
            continue
        if k[0] in paired:
            va = tm.rewrite(A.heap[k], lambda x: paired.get(x))
            st, d = classify(va, S.heap[(paired[k[0]], k[1])], ref_names, S.retcond)
            out.append(Finding(st, 'final value of ' + cellname(k), d, *loc(k)))
            continue
        if k[0] in paired.values() and k not in A.heap:
            continue
        ina, ins = k in A.heap, k in S.heap
        per = persistent(k[0])
        if ina and ins:
            st, d = classify(A.heap[k], S.heap[k], ref_names, S.retcond)
            out.append(Finding(st, 'final value of ' + cellname(k), d, *loc(k)))
        elif ins:
            # the tree no longer writes this field
            if per:
                alt = [k2 for k2 in A.heap if k2[1] == k[1] and k2 not in S.heap]
                va = T('attr', k[0], k[1])
                if alt:
                    out.append(Finding('UNDEC', 'final value of ' + cellname(k), 'field written through another path', *loc(alt[0])))
                else:
                    st, d = classify(va, S.heap[k], ref_names, S.retcond)
                    if st == 'UNDEC' and not any(a_ == k[1] for _, a_ in A.where):
                        st = 'DIFF'
                    out.append(Finding(st, 'final value of ' + cellname(k), d and 'no longer written; ' + d, *loc(k)))
            else:
                alt = [k2 for k2 in A.heap if k2[1] == k[1] and k2 not in S.heap]
                st, d = 'UNDEC', 'object not matched'
                if not alt and not any(a_ == k[1] for _, a_ in A.where) and mentions(A, k[0]):
                    st, d = classify(T('attr', k[0], k[1]), S.heap[k], ref_names, S.retcond)
                    st = 'DIFF' if st == 'UNDEC' else st
                    d = d and 'no longer written; ' + d
                out.append(Finding(st, 'final value of ' + cellname(k), d, *loc(k)))
        else:
            if per and not new_attr(func, k, S):
                va = T('attr', k[0], k[1])
                st, d = classify(A.heap[k], va, ref_names, S.retcond)
                if st == 'UNDEC' and d.startswith('iteration') and not any(a_ == k[1] for _, a_ in S.where):
                    st = 'DIFF'
                out.append(Finding(st, 'final value of ' + cellname(k), d and 'additionally written; ' + d, *loc(k)))
            else:
                st, d = 'UNDEC', 'local or new field'
                if not per and not new_attr(func, k, S) and not any(a_ == k[1] for _, a_ in S.where) and mentions(S, k[0]):
                    st, d = classify(A.heap[k], T('attr', k[0], k[1]), ref_names, S.retcond)
                    d = d and 'additionally written; ' + d
                out.append(Finding(st, 'final value of ' + cellname(k), d, *loc(k)))
    if want.get('raises', True):
        ra = or_(*[g for _, g, _ in A.raises]) if A.raises else FALSE
        rs = or_(*[g for _, g, _ in S.raises]) if S.raises else FALSE
        st, d = classify(ra, rs, ref_names)
        ln = A.raises[-1][2].line if A.raises else func.node.lineno
        out.append(Finding(st, 'condition under which it raises', d, w, ln))
    # calls
    names = sorted(set(c[0] for c in A.calls) | set(c[0] for c in S.calls))
    for n in names:
        if n in skip_calls or (only_calls is not None and n not in only_calls):
            continue
        ca = [c for c in A.calls if c[0] == n]
        cs = [c for c in S.calls if c[0] == n]
        out.extend(match_calls(n, ca, cs, ref_names, func))
    out.extend(state_at_calls(A, S, func, ref_names))
    out.extend(order_of_effects(A, S, func))
    out.extend(check_then_lock(A, S, func))
    out.extend(ownership(A, S, func, loc))
    return out


VIEWS = set(['catalog.py:DataObject.__init__', 'catalog.py:DataObject.__getattr__', 'catalog.py:DataObject.__setattr__', 'catalog.py:Entry.__init__',
             'catalog.py:Entry.__getattr__', 'catalog.py:Catalog.__getitem__', 'catalog.py:Catalog.__setitem__', 'cluster.py:ClusterCatalog.__getitem__',
             'cluster.py:ClusterCatalog.__init__', 'cluster.py:ClusterCatalog._update_methods'])


def ownership(A, S, func, loc):
    """a value the reference copies before keeping it or handing it on is still a copy"""
    out, n = [], 0
    for k, (ss, sc) in S.own.items():
        if k not in A.own or not sc:
            continue
        n += 1
        as_, ac = A.own[k]
        kept = set(x for x, how in ss if how == 'same')
        shal = set(x for x, how in ss)
        for x, how in sorted(as_, key=lambda p: show(p[0])):
            lost = (x, 'deep') in sc and x not in shal or how == 'same' and (x, 'shallow') in sc and x not in kept
            if lost and not (how == 'shallow' and any(c == (x, 'deep') for c in ac)):
                lb = k if isinstance(k, str) else cellname(k)
                wh = loc(k) if not isinstance(k, str) else (func.where, func.node.lineno)
                out.append(Finding('DIFF', 'storage of ' + lb, 'shares storage with %s, which the reference copies' % short(x, 120), *wh))
    for x, kind, ln in S.copies:
        if kind == 'deep':
            n += 1
            mine = [(k2, l2) for y, k2, l2 in A.copies if y is x]
            if mine and all(k2 == 'shallow' for k2, l2 in mine):
                out.append(Finding('DIFF', 'copy of ' + short(x, 60), 'a shallow copy where the reference makes a deep one', func.where, mine[0][1]))
    mine = set(x for x, ln in S.inplace)
    for x, ln in A.inplace:
        if x not in mine and any(y is x for y, kind, l2 in S.copies) and not any(y is x for y, kind, l2 in A.copies):
            out.append(Finding('DIFF', 'changes in place to ' + short(x, 60), 'the reference works on a copy', func.where, ln))
    for x, ln in A.shared_inplace:
        if any(y is x for y, kind, l2 in S.copies) and not any(y is x for y, kind, l2 in A.copies):
            out.append(Finding('DIFF', 'changes in place to ' + short(x, 60), 'the reference keeps a copy of the value, here it changes along', func.where, ln))
    if func.where.split('redmapper/')[-1] in VIEWS:
        # rows, columns and selections of a table share its storage: no copy may come between
        n += 1
        for x, kind, ln in A.copies:
            if not any(y is x for y, k2, l2 in S.copies):
                out.append(Finding('DIFF', 'storage shared with ' + short(x, 60), 'a copy of %s is made where the reference hands on the storage itself' % short(x, 100), func.where, ln))
    if n and not out:
        out.append(Finding('EQ', 'copies kept apart', '%d' % n, func.where, func.node.lineno))
    return out


# operations on the file system and stages that work through files: their order is part of the
# behaviour (a reader or a restart may see the state between two of them)
FILEOPS = set(['to_fits_file', 'fitsio.write', 'os.remove', 'os.unlink', 'os.rename', 'shutil.move', 'shutil.copy', 'make_lockfile',
               'output', 'output_training', 'save_pars', 'output_yaml', 'output_configuration', 'run', 'finalize_catalog', 'append_galaxies',
               'append_randoms', 'split_galaxies', 'split_randoms', 'make_zred_table', 'generate_randoms', 'weight_randoms',
               'select_redmagic_galaxies', 'write', 'write_table', 'set_wcen_vals', 'os.makedirs'])


FSREADS = set(['os.path.isfile', 'os.path.isdir', 'os.path.exists', 'glob.glob', 'fitsio.read', 'fitsio.read_header', 'fitsio.FITS', 'os.listdir'])


def check_then_lock(A, S, func):
    """what the reference asks of the file system only while it holds a lock must not be asked before taking it"""
    out = []
    for X in (A, S):
        X._locks = {}
        for n, t, g, lo, e in X.calls:
            if n in ('make_lockfile', 'os.remove', 'os.unlink'):
                X._locks.setdefault(unversion(t), []).append((g, e, n))
    n = 0
    for t, ls in S._locks.items():
        la = A._locks.get(t)
        if not la or len(la) != 1 or len(ls) != 1:
            continue
        (gs, es, kind), (ga, ea, kind) = ls[0], la[0]
        for r in set(x[0] for x in S.reads):
            rs = [e for x, g, e in S.reads if x is r and and_(g, gs) is not FALSE]
            ra = [e for x, g, e in A.reads if x is r and and_(g, ga) is not FALSE]
            if not rs or not ra:
                continue
            if all(e.seq < es.seq for e in rs):
                n += 1
                if kind != 'make_lockfile' and all(e.seq > ea.seq for e in ra):
                    out.append(Finding('DIFF', 'state read under the lock', '%s is now read after %s' % (short(r, 140), short(t, 140)), ra[0].where, ra[0].line))
            if any(e.seq < es.seq for e in rs):
                continue
            n += 1
            if all(e.seq < ea.seq for e in ra):
                out.append(Finding('DIFF', 'state read under the lock', '%s is now read before %s' % (short(r, 140), short(t, 140)),
                                   ra[0].where, ra[0].line))
    if n and not out:
        out.append(Finding('EQ', 'state read under the lock', '%d reads' % n, func.where, func.node.lineno))
    return out


def state_at_calls(A, S, func, ref_names):
    """a call finds the fields its callee reads in the state in which the reference leaves them"""
    def snaps(X):
        d = {}
        for e in X.events:
            if e.kind == 'call' and isinstance(e.callee, str) and e.term is not None and e.guard is not FALSE:
                k = (e.callee, unversion(canon(e.term)))
                d.setdefault(k, []).append(e)
        return d
    da, ds = snaps(A), snaps(S)
    out, n = [], 0
    for k in ds:
        la, ls = da.get(k, ()), ds[k]
        if len(la) != len(ls):
            continue
        for a, s in zip(la, ls):
            if not a.snap and not s.snap or not equal(canon(a.guard), canon(s.guard)):
                continue
            sa = dict(((cell_base(b), x), canon(v)) for (b, x), v in (a.snap or {}).items())
            ss = dict(((cell_base(b), x), canon(v)) for (b, x), v in (s.snap or {}).items())
            g = canon(s.guard)
            for c in sorted(set(sa) | set(ss), key=cellname):
                init = T('attr', c[0], c[1])
                va, vs = sa.get(c, init), ss.get(c, init)
                if c not in ss and new_attr(func, c, S):
                    continue
                n += 1
                if va is vs or unversion(va) is unversion(vs):
                    continue
                st, d = classify(va, vs, ref_names, g)
                if st == 'DIFF' and g is not TRUE:
                    st, d2 = classify(ite(g, va, NONE), ite(g, vs, NONE), ref_names)
                if st != 'EQ':
                    out.append(Finding(st, 'state found by the call of %s' % k[0], '%s: %s' % (cellname(c), d), a.where, a.line))
    if n and not out:
        out.append(Finding('EQ', 'state found by the calls', '%d fields' % n, func.where, func.node.lineno))
    return out


def order_of_effects(A, S, func):
    def ops(X):
        out = []
        for n, t, g, lo, e in X.calls:
            if n in FILEOPS:
                out.append((unversion(T('ev', t, *lo)), g, e))
        return out
    oa, os_ = ops(A), ops(S)
    pos = {}
    for i, (t, g, e) in enumerate(oa):
        pos.setdefault(t, []).append(i)
    seq = []
    for t, g, e in os_:
        if pos.get(t) and len(pos[t]) == 1 and sum(1 for x in os_ if x[0] is t) == 1:
            seq.append((pos[t][0], t, g, e))
    if len(seq) < 2:
        return []
    bad = None
    for i in range(len(seq)):
        for j in range(i + 1, len(seq)):
            if seq[i][0] > seq[j][0] and and_(seq[i][2], seq[j][2]) is not FALSE:
                bad = bad or (seq[i], seq[j])
    if bad:
        x, y = oa[bad[0][0]][2], oa[bad[1][0]][2]
        return [Finding('DIFF', 'order of file operations', '%s now happens after %s' % (short(canon(x.term), 140), short(canon(y.term), 140)), x.where, x.line)]
    return [Finding('EQ', 'order of file operations', '%d operations' % len(seq), func.where, func.node.lineno)]


def new_attr(func, k, S):
    """attribute the reference never mentions: a private cache added by an edit"""
    return False if k[1] in KNOWN_ATTRS() or k[1] == 'contents' else True


_known_attrs = [None]


def KNOWN_ATTRS():
    if _known_attrs[0] is None:
        with open(os.path.join(HERE, 'attrs.json')) as f:
            _known_attrs[0] = set(json.load(f))
    return _known_attrs[0]


def match_calls(n, ca, cs, ref_names, func):
    out = []
    ca, cs = list(ca), list(cs)
    nums = len(ca), len(cs)
    full = lambda c: T('ev', c[1], c[2], *c[3])
    for s in list(cs):
        for a in list(ca):
            if full(a) is full(s):
                ca.remove(a)
                cs.remove(s)
                out.append(Finding('EQ', 'call of ' + n, '', a[4].where, a[4].line))
                break
    for s in list(cs):
        for a in list(ca):
            if equal(full(a), full(s)) and not _search['cut'] and equal(a[2], s[2]) and not _search['cut']:
                ca.remove(a)
                cs.remove(s)
                out.append(Finding('EQ', 'call of ' + n, '', a[4].where, a[4].line))
                break
    if not ca and not cs:
        return out
    # merged forms: combine the remaining calls of each side when only guards/args were joined
    if len(ca) != len(cs) and ca and cs:
        ga, gs = or_(*[c[2] for c in ca]), or_(*[c[2] for c in cs])
        ta, ts = merged(ca), merged(cs)
        if eqv(ga, gs) and ri_equal(ite(ga, ta, NONE), ite(gs, ts, NONE)):
            out.append(Finding('EQ', 'call of ' + n, 'joined', ca[0][4].where, ca[0][4].line))
            return out
    # pair leftovers in order
    while ca and cs:
        s = cs.pop(0)
        best = None
        for a in ca:
            score = (a[1] is s[1]) * 4 + (a[2] is s[2]) * 3 + (a[3] == s[3])
            if best is None or score > best[0]:
                best = (score, a)
        a = best[1]
        ca.remove(a)
        st, d = classify(a[1], s[1], ref_names)
        if st == 'DIFF':
            # only the cases in which the call is made count
            g = and_(a[2], s[2])
            if g is not FALSE and g is not TRUE:
                st2, d2 = classify(ite(g, a[1], NONE), ite(g, s[1], NONE), ref_names)
                if st2 != 'DIFF':
                    st, d = st2, d2
        if st == 'EQ':
            st, d = classify(a[2], s[2], ref_names)
            d = d and 'condition: ' + d
        if st == 'EQ':
            if len(a[3]) != len(s[3]):
                st, d = 'UNDEC', 'loop nesting differs'
            else:
                for x, y in zip(a[3], s[3]):
                    st, d = classify(x, y, ref_names)
                    if st != 'EQ':
                        break
        out.append(Finding(st, 'call of ' + n, d, a[4].where, a[4].line))
    for s in cs:
        if s[2] is FALSE:
            continue
        st = 'UNDEC' if _search.get('restructured') and nums[0] else 'DIFF'
        out.append(Finding(st, 'call of ' + n, 'missing: %s when %s' % (short(s[1], 160), short(s[2], 160)), func.where, func.node.lineno))
    for a in ca:
        u = has_unknown(a[1], ref_names)
        u = u or _search.get('restructured') and nums[1]
        out.append(Finding('UNDEC' if u else 'DIFF', 'call of ' + n, 'additional: %s when %s' % (short(a[1], 160), short(a[2], 160)), a[4].where, a[4].line))
    return out


def merged(cs):
    cur = cs[-1][1]
    for c in reversed(cs[:-1]):
        cur = ite(c[2], c[1], cur)
    return cur


# ------------------------------------------------------------------ reference modules
class SpecModule(Module):
    def __init__(self, repo, path, real):
        Module.__init__(self, repo, path, 'spec:' + real.rel, real.dotted)
        self.real_rel = real.rel
        self.spec_functions = self.functions
        self.spec_classes = self.classes
        self.spec_globals = dict(self.globals)
        self.functions = real.functions
        self.classes = real.classes
        self.path = path
        g = dict(self.globals)
        g.update(real.globals)
        self.globals = g


class Specs(object):
    """the reference definitions: parsed, never executed; names in them resolve into the tree"""
    def __init__(self, repo, root):
        self.repo = repo
        self.root = root
        self.mods = {}
        self.ghosts = set()      # functions of the reference that the tree no longer has

    def module(self, modrel):
        if modrel not in self.mods:
            real = None
            for m in self.repo.modules.values():
                if m.rel == modrel:
                    real = m
            if real is None:
                raise AnalysisBroken('module %s vanished' % modrel)
            self.mods[modrel] = SpecModule(self.repo, os.path.join(self.root, modrel), real)
        return self.mods[modrel]

    def has(self, modrel, qual):
        try:
            self.get(modrel, qual)
            return True
        except (AnalysisBroken, KeyError):
            return False

    def get(self, modrel, qual):
        """reference Func for 'redmapper/x.py' 'Class.method' ('Class.prop@setter' for a property setter)"""
        sm = self.module(modrel)
        if '.' in qual:
            c, m = qual.split('.')
            sc = sm.spec_classes.get(c)
            f = None
            if sc is not None:
                f = sc.setters.get(m[:-7]) if m.endswith('@setter') else sc.methods.get(m)
            if f is None:
                raise AnalysisBroken('reference %s %s missing' % (modrel, qual))
            return Func(sm, self.repo.classes.get(c), f.node, qual)
        f = sm.spec_functions.get(qual)
        if f is None:
            raise AnalysisBroken('reference %s %s missing' % (modrel, qual))
        return Func(sm, None, f.node, qual)

    def ghost_method(self, cls, name):
        for k in self.repo.mro(cls):
            try:
                f = self.get(k.mod.rel, '%s.%s' % (k.name, name))
            except (AnalysisBroken, OSError):
                continue
            self.ghosts.add('%s:%s' % (k.mod.rel, f.qual))
            return f
        return None

    def ghost_name(self, mod, name):
        f = mod.spec_functions.get(name)
        if f is not None:
            self.ghosts.add('%s:%s' % (mod.real_rel, f.qual))
            return Func(mod, None, f.node, f.qual)
        imp = mod.imports.get(name)
        if imp and imp[0] == 'from' and imp[1] in self.repo.modules:
            try:
                sm = self.module(self.repo.modules[imp[1]].rel)
            except (AnalysisBroken, OSError):
                return None
            f = sm.spec_functions.get(imp[2])
            if f is not None:
                self.ghosts.add('%s:%s' % (sm.real_rel, f.qual))
                return Func(sm, None, f.node, f.qual)
        return None


def real_func(repo, modrel, qual):
    """the tree's definition: in the same place, inherited, or moved; None when it is gone"""
    for m in repo.modules.values():
        if m.rel == modrel:
            if '.' in qual:
                c, n = qual.split('.')
                if c in m.classes:
                    f = repo.find_setter(m.classes[c], n[:-7]) if n.endswith('@setter') else repo.find_method(m.classes[c], n)
                    if f is not None:
                        return f, m.classes[c]
            elif qual in m.functions:
                return m.functions[qual], None
            else:
                r = repo.resolve_name(m, qual)
                if isinstance(r, Func):
                    return r, r.cls
    for f in repo.all_functions():
        if f.qual == qual:
            return f, f.cls
    return None, None


def _norm_dump(node):
    """text of a function's definition without its documentation"""
    n = ast.parse(ast.unparse(node)).body[0]
    if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and len(n.body) > 1:
        n.body = n.body[1:]
    return ast.dump(n)


def changed(repo, specs, f):
    """does the definition of a reference function differ from the reference at all?"""
    c = repo.__dict__.setdefault('_changed', {})
    k = f.where
    if k not in c:
        try:
            c[k] = _norm_dump(f.node) != _norm_dump(specs.get(f.mod.rel, f.qual).node)
        except (AnalysisBroken, OSError):
            c[k] = False
    return c[k]


def _defaults(func):
    a = func.node.args
    allp = [x.arg for x in a.posonlyargs + a.args]
    d = dict((i + len(allp) - len(a.defaults), v) for i, v in enumerate(a.defaults))
    out = [(i, p, d.get(i)) for i, p in enumerate(allp)]
    kw = [(x.arg, x.arg, v) for x, v in zip(a.kwonlyargs, a.kw_defaults)]
    return out, kw


def check_signature(repo, specs, f, sf):
    """positional meaning, defaults and decorators of the parameters a caller relies on"""
    out = []
    A, Ak = _defaults(f)
    S, Sk = _defaults(sf)
    I, J = Interp(repo), Interp(repo, specs=specs)
    from .vfg import Frame, State
    I.frames = [Frame(f, None, f.mod)]
    J.frames = [Frame(sf, None, sf.mod)]
    akw = dict((p, d) for _, p, d in A + Ak)
    ln = f.node.lineno
    names_a = [p for _, p, _ in A + Ak]
    for i, p, d in S + Sk:
        if isinstance(i, int) and i < len(A) and (A[i][1] == p or p not in names_a):
            da = A[i][2]
        elif p in akw:
            da = akw[p]
            if isinstance(i, int) and not f.name.startswith('_') and [x for x in names_a if x in [q for _, q, _ in S + Sk]] != [q for _, q, _ in S + Sk if q in names_a]:
                out.append(Finding('DIFF', 'parameter ' + p, 'moved to another position', f.where, ln))
                continue
        else:
            out.append(Finding('UNDEC', 'parameter ' + p, 'no longer a named parameter', f.where, ln))
            continue
        if d is None and da is None:
            continue
        if d is None:
            out.append(Finding('EQ', 'parameter ' + p, 'now optional', f.where, ln))
            continue
        if da is None:
            out.append(Finding('DIFF', 'parameter ' + p, 'no longer has a default', f.where, ln))
            continue
        st, det = classify(canon(I.eval(da, State({}, {}, TRUE, {}))), canon(J.eval(d, State({}, {}, TRUE, {}))), frozenset())
        out.append(Finding(st, 'default of parameter ' + p, det, f.where, ln))
    for d in ('staticmethod', 'classmethod', 'property'):
        if (d in f.deco()) != (d in sf.deco()):
            out.append(Finding('UNDEC', 'decorator ' + d, 'differs', f.where, ln))
    return out


def check_pair(repo, specs, f, cls, sf, want=None, inline=()):
    cn = cls.name if cls is not None else None
    pa, ps = f.params(), sf.params()
    args = {}
    if len(pa) == len(ps) and set(pa) != set(ps):
        args = dict((x, sym(y)) for x, y in zip(pa, ps))
    inl = set(inline)
    res = None
    for level in range(4):
        A = summarise(repo, f, cn, inline=inl, args=args)
        S = summarise(repo, sf, cn, inline=inl, specs=specs)
        _search['weak'] = 0
        _search['restructured'] = rearranged(repo, f, sf, A, S)
        _search['over_values'] = ranges(f.node) != ranges(sf.node)
        _search['relaid'] = bool(A.inlined ^ S.inlined) or layouts(f.node) != layouts(sf.node)
        fs = compare(A, S, f, want, not inl and loop_headers(f.node) == loop_headers(sf.node) and not A.inlined - S.inlined)
        if res is None or not any(x.status == 'DIFF' for x in fs) and not _search['weak']:
            res = fs, A, S
        if not any(x.status == 'DIFF' for x in fs):
            break
        # look into helpers: those only one side calls, then private ones that an edit changed
        only = set()
        base = Interp(repo).baseline
        for n in A.callees ^ S.callees:
            for g in repo.all_functions():
                if g.name == n and '%s:%s' % (g.mod.rel, g.qual) in base and g.qual != f.qual:
                    only.add(g.qual)
        for n in A.callees & S.callees:
            if n.startswith('_'):
                for g in repo.all_functions():
                    if g.name == n and '%s:%s' % (g.mod.rel, g.qual) in base and g.qual != f.qual and changed(repo, specs, g):
                        only.add(g.qual)
        if not only - inl or len(only) > 12:
            break
        inl |= only
    _search['restructured'] = ''
    _search['over_values'] = False
    _search['relaid'] = True
    return res


def users(repo, qual):
    """functions of the tree that mention the helper by name"""
    n = qual.split('.')[-1]
    out = []
    for g in repo.all_functions():
        if g.qual == qual:
            continue
        for x in ast.walk(g.node):
            if (isinstance(x, ast.Attribute) and x.attr == n) or (isinstance(x, ast.Name) and x.id == n):
                out.append(g)
                break
    return out


def handed_on(u, name):
    called = set(id(x.func) for x in ast.walk(u.node) if isinstance(x, ast.Call))
    return any(id(x) not in called for x in ast.walk(u.node)
               if isinstance(x, ast.Attribute) and x.attr == name or isinstance(x, ast.Name) and x.id == name)


def private(qual):
    n = qual.split('.')[-1]
    return n.startswith('_') and not n.startswith('__')


def check_function(repo, specs, modrel, qual, want=None, depth=0):
    """-> (findings, info)"""
    if depth == 0:
        _search.update(spent=0.0, found=False)
        _loc_fail.clear()
    native = modrel.endswith('/native_c.py')
    if native:
        u = repo.native.get(modrel)
        why = 'the extension is no longer written in C here' if u is None else u.unsupported.get(qual)
        if why:
            return [Finding('UNDEC', 'native function ' + qual, why, '%s:%s' % (modrel, qual), 1)], {
                'function': '%s:%s' % (modrel, qual), 'observables': 1, 'events': 0, 'inlined': [], 'eq': 0, 'undecided': 1, 'different': 0}
    sf = specs.get(modrel, qual)
    f, cls = real_func(repo, modrel, qual)
    if f is None:
        if native or private(qual):
            # inlined or renamed by an edit: its callers are compared with the reference body in place
            return [], {'function': '%s:%s' % (modrel, qual), 'observables': 0, 'events': 0, 'inlined': [], 'eq': 0,
                        'undecided': 0, 'different': 0, 'note': 'no longer a separate function; decided in its callers'}
        raise AnalysisBroken('%s:%s not found' % (modrel, qual))
    todo = [(f, cls)]
    if '.' in qual and '@' not in qual:
        # overrides that an edit added below the class
        base = Interp(repo).baseline
        c, m = qual.split('.')
        for k in repo.subclasses(c):
            if m in k.methods and '%s:%s.%s' % (k.mod.rel, k.name, m) not in base:
                todo.append((k.methods[m], k))
    out, ev, inl = [], 0, set()
    for g, k in todo:
        fs, A, S = check_pair(repo, specs, g, k, sf, want)
        if want is None or want.get('signature', True):
            fs = fs + check_signature(repo, specs, g, sf)
        if depth == 0 and g is f and (native or private(qual)) and any(x.status == 'DIFF' for x in fs):
            # a private helper may change together with its callers
            us = [u for u in users(repo, g.qual) if '%s:%s' % (u.mod.rel, u.qual) in Interp(repo).baseline]
            ok = bool(us)
            # effects of a function that is only handed on (to run in another process) are not all visible where it is handed on
            if any(handed_on(u, g.name) for u in us) and any(x.status == 'DIFF' and x.obs != 'return value' for x in fs):
                ok = False
                us = ()
            for u in us:
                try:
                    sfu = specs.get(u.mod.rel, u.qual)
                except AnalysisBroken:
                    ok = False
                    break
                r, ua, us_ = check_pair(repo, specs, u, u.cls, sfu, None, inline=(g.qual,))
                if _search['weak'] or any(x.status != 'EQ' for x in r) or g.where not in ua.inlined or g.name in ua.callees or g.name in us_.callees:
                    ok = False
                    break
            if ok:
                fs = [x if x.status != 'DIFF' else Finding('EQ', x.obs, 'interface changed together with every caller', x.where, x.line)
                      for x in fs]
        out += fs
        ev += len(A.events)
        inl |= A.inlined
    info = {'function': f.where, 'observables': len(out), 'events': ev, 'inlined': sorted(inl),
            'eq': sum(x.status == 'EQ' for x in out), 'undecided': sum(x.status == 'UNDEC' for x in out),
            'different': sum(x.status == 'DIFF' for x in out)}
    return out, info


# ------------------------------------------------------------------ constants and class tables
def check_constants(repo, specs, modrel, only=None):
    """module constants, class attributes (configuration fields, column tables) and base classes"""
    from .vfg import Frame, State
    sm = specs.module(modrel)
    real = [m for m in repo.modules.values() if m.rel == modrel]
    if not real and modrel.endswith('/native_c.py'):
        return []
    real = real[0]
    out = []

    def ev(mod, node, sp):
        I = Interp(repo, specs=specs if sp else None)
        I.frames = [Frame(None, None, mod)]
        return canon(I.eval(node, State({}, {}, TRUE, {})))

    def used(n):
        for m in repo.modules.values():
            for x in ast.walk(m.tree):
                if (isinstance(x, ast.Attribute) and x.attr == n and isinstance(x.ctx, ast.Load)) or \
                        (isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Load)):
                    return True
        return False

    def one(name, av, sv):
        if only is not None and name not in only:
            return
        w = '%s:%s' % (modrel, name)
        if av is None:
            st = 'DIFF' if used(name.split('.')[-1]) else 'UNDEC'
            out.append(Finding(st, 'constant ' + name, 'no longer defined', w, 1))
            return
        st, d = classify(ev(real, av, False), ev(sm, sv, True), frozenset())
        out.append(Finding(st, 'constant ' + name, d, w, av.lineno))
    for n, v in sorted(sm.spec_globals.items()):
        if n.startswith('__') or (n.startswith('Py') and modrel.endswith('/native_c.py')):
            continue
        av = real.globals.get(n)
        if av is None and n in real.imports:
            r = repo.modules.get(real.imports[n][1])
            av = r.globals.get(n) if r is not None else None
            if av is None:
                continue
        one(n, av, v)
    for cn, c in sorted(sm.spec_classes.items()):
        rc = real.classes.get(cn)
        if rc is None:
            r = repo.resolve_name(real, cn)
            rc = r if hasattr(r, 'methods') else repo.classes.get(cn)
        if rc is None:
            raise AnalysisBroken('class %s:%s vanished' % (modrel, cn))
        have = {}
        for k in reversed(repo.mro(rc)):
            have.update(k.attrs)
        for n, v in sorted(c.attrs.items()):
            one('%s.%s' % (cn, n), have.get(n), v)
        if only is None:
            anc = set(k.name for k in repo.mro(rc))
            for b in c.node.bases:
                bn = b.id if isinstance(b, ast.Name) else (b.attr if isinstance(b, ast.Attribute) else None)
                if bn in repo.classes:
                    out.append(Finding('EQ' if bn in anc else 'DIFF', 'base class of ' + cn, '' if bn in anc else 'no longer derives from ' + bn,
                                       '%s:%s' % (modrel, cn), rc.node.lineno))
    return out


def check_script(repo, specs, modrel):
    """module level statements (the command line scripts)"""
    sm = specs.module(modrel)
    real = [m for m in repo.modules.values() if m.rel == modrel][0]

    def fn(mod):
        body = []
        for s in mod.tree.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                continue
            if isinstance(s, ast.If) and isinstance(s.test, ast.Compare) and isinstance(s.test.left, ast.Name) and s.test.left.id == '__name__':
                body += s.body
            else:
                body.append(s)
        node = ast.parse('def __script__():\n    pass').body[0]
        node.body = body or node.body
        node.lineno = 1
        return Func(mod, None, node, '__script__')
    f, sf = fn(real), fn(sm)
    A = summarise(repo, f, None)
    S = summarise(repo, sf, None, specs=specs)
    return compare(A, S, f, {'ret': False})
