"""Guarded value-flow extraction.

One syntax-directed pass over a function (with the helpers it calls inlined)
builds, for every program point, the canonical term of every value and an
ordered trace of the effects (stores, calls, returns, raises), each with the
condition it is control-dependent on.  No program code is executed and no path
is enumerated: branches are merged into gated terms, loop bodies are analysed
once with their loop-carried values made symbolic.
"""
import ast
import builtins
import json
import os
from fractions import Fraction

from .terms import *
from .terms import T, Term
from . import terms as tm
from .repo import Repo, Func, Class, Module, AnalysisBroken

HERE = os.path.dirname(os.path.abspath(__file__))
FULL = T('fullslice')

TYPE_HINTS = {
    'config': 'Configuration', 'mask': 'HPMask', 'zredstr': 'RedSequenceColorPar',
    'bkg': 'Background', 'zredbkg': 'ZredBackground', 'cbkg': 'ColorBackground',
    'neighbors': 'GalaxyCatalog', 'gals': 'GalaxyCatalog', 'depthstr': 'DepthMap',
    'depthlim': 'DepthLim', 'zlambda_corr': 'ZlambdaCorrectionPar', 'cluster': 'Cluster',
    'maskgals': 'Catalog', 'members': 'Catalog', 'vlim_mask': 'VolumeLimitMask',
    'zlambda': 'Zlambda', 'cat': 'ClusterCatalog', 'cluster_temp': 'Cluster',
}

ELEMWISE = ('numpy.log', 'numpy.log10', 'numpy.exp', 'abs', 'pow10', 'numpy.isfinite', 'numpy.sin', 'numpy.cos')
NP_METHODS = ('sum', 'min', 'max', 'mean', 'std', 'any', 'all', 'argmin', 'argmax', 'argsort', 'cumsum',
              'clip', 'ravel', 'flatten', 'prod', 'dot', 'searchsorted', 'nonzero', 'argpartition', 'reshape')


class Event(object):
    __slots__ = ('kind', 'base', 'attr', 'index', 'value', 'aug', 'callee', 'args', 'kwargs', 'guard',
                 'loops', 'withs', 'trys', 'line', 'where', 'seq', 'term', 'old', 'snap')

    def __init__(self, kind, **kw):
        self.kind = kind
        for s in Event.__slots__[1:]:
            setattr(self, s, kw.get(s))

    def __repr__(self):
        if self.kind == 'store':
            d = '%s.%s[%s] = %s' % (self.base, self.attr, self.index, self.value)
        elif self.kind == 'call':
            d = show(self.term)
        else:
            d = repr(self.value)
        return '<%d %s %s | if %s @%s:%s>' % (self.seq, self.kind, d, self.guard, self.where, self.line)


class State(object):
    __slots__ = ('env', 'heap', 'pc', 'havoc')

    def __init__(self, env, heap, pc, havoc):
        self.env, self.heap, self.pc, self.havoc = env, heap, pc, havoc

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.pc, dict(self.havoc))

    def adopt(self, o):
        self.env, self.heap, self.pc, self.havoc = o.env, o.heap, o.pc, o.havoc


def implied(a, b):
    """a implies b, by cases over the conditions the two are made of"""
    atoms = []

    def go(t):
        if t.op in ('and', 'or', 'not'):
            for x in t.args:
                go(x)
        elif t.op == 'ite':
            for x in t.args:
                go(x)
        elif t not in (TRUE, FALSE) and t not in atoms:
            atoms.append(t)
    go(a)
    go(b)
    if len(atoms) > 11:
        return False

    def ev(t, m):
        if t in m:
            return m[t]
        if t.op == 'and':
            return all(ev(x, m) for x in t.args)
        if t.op == 'or':
            return any(ev(x, m) for x in t.args)
        if t.op == 'not':
            return not ev(t.args[0], m)
        return ev(t.args[1], m) if ev(t.args[0], m) else ev(t.args[2], m)
    for k in range(1 << len(atoms)):
        m = dict((x, bool(k >> i & 1)) for i, x in enumerate(atoms))
        m[TRUE], m[FALSE] = True, False
        if ev(a, m) and not ev(b, m):
            return False
    return True


class Frame(object):
    def __init__(self, func, cls, mod):
        self.func, self.cls, self.mod = func, cls, mod
        self.returns = []
        self.loopctl = []
        self.alias = {}
        self.where = (func.where if func else mod.rel)
        self._loc = None
        self._reads = None

    def reads(self, name):
        """the value of this name is used somewhere in the function"""
        if self._reads is None:
            n = getattr(self.func, 'node', None)
            self._reads = set(x.id for x in ast.walk(n) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store)) | \
                set(x.target.id for x in ast.walk(n) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)) if n is not None else ()
        return self._reads == () or name in self._reads or not name.isidentifier()

    def locals(self):
        if self._loc is None:
            loc = set()
            n = getattr(self.func, 'node', None)
            if n is not None and hasattr(n, 'body') and isinstance(n.body, list):
                glob = set()
                todo = list(n.body)
                while todo:
                    x = todo.pop()
                    if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                        continue
                    if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                        continue
                    if isinstance(x, (ast.Global, ast.Nonlocal)):
                        glob |= set(x.names)
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        loc.add(x.id)
                    todo.extend(ast.iter_child_nodes(x))
                loc -= glob
            self._loc = loc
        return self._loc


def seq_like(t):
    return t.op in ('list', 'append', 'extend') or (t.op == 'call' and t.args[0] == 'list' and not t.args[2]) or \
        (t.op == 'comp' and t.args[0] == 'list')


def mk_append(a, x):
    if a.op == 'list':
        return T('list', *(a.args + (x,)))
    return T('append', a, x)


def mk_extend(a, b):
    while b.op == 'call' and b.args[0] in ('list', 'tuple') and len(b.args[1]) == 1:
        b = b.args[1][0]
    if b.op in ('list', 'tuple'):
        for x in b.args:
            a = mk_append(a, x)
        return a
    if a.op == 'list' and not a.args and b.op == 'comp':
        return b
    return T('extend', a, b)


def root(t):
    while isinstance(t, Term):
        if t.op in ('attr', 'attrv', 'idx', 'elem', 'copy', 'cast'):
            t = t.args[0]
        elif t.op == 'upd':
            t = t.args[0]
        else:
            return t
    return t


def some(key, c):
    """some iteration over `key` satisfies c"""
    if c is TRUE:
        return truth(key) if key.op in ('size', 'count') else not_(eq(key, ZERO))
    if c is FALSE:
        return FALSE
    return T('call', 'any', (T('comp', 'list', c, T('gen', key, TRUE)),), ())


def newer(t, uid, memo):
    """does the term contain an object created after `uid` was drawn"""
    r = memo.get(t)
    if r is not None:
        return r
    r = False
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            if (x.op in ('alloc', 'copy') and x.args[-1] > uid) or (x.op == 'new' and x.args[1] > uid):
                r = True
                break
            stack.extend(x.args)
        elif isinstance(x, tuple):
            stack.extend(x)
    memo[t] = r
    return r


def load_baseline():
    if _base[0] is None:
        with open(os.path.join(HERE, 'baseline_funcs.json')) as f:
            _base[0] = set(json.load(f))
    return _base[0]


_base = [None]
_bnames = [None]


def baseline_names():
    """module constants and class attributes of the reference tree"""
    if _bnames[0] is None:
        with open(os.path.join(HERE, 'baseline_names.json')) as f:
            _bnames[0] = set(json.load(f))
    return _bnames[0]


def as_is(t):
    """list(x) or tuple(x): the same elements in the same order"""
    return t.op == 'call' and t.args[0] in ('list', 'tuple') and len(t.args[1]) == 1 and not t.args[2] and t.args[1][0].op in ('attr', 'attrv', 'sym', 'call', 'idx')


class Interp(object):
    def __init__(self, repo, inline=(), atomic=(), hints=None, maxdepth=14, inline_all=False, init=(), specs=None):
        self.repo = repo
        self.specs = specs
        self.baseline = load_baseline()
        self.inline = set(inline)
        self.force_atomic = set(atomic)
        self.hints = dict(TYPE_HINTS)
        if hints:
            self.hints.update(hints)
        self.maxdepth = maxdepth
        self.inline_all = inline_all
        self.init = set(init)
        self.events = []
        self.seq = 0
        self.copies = []
        self.inplace = []
        self.named_twice = set()      # pairs of local names that were made to stand for one value
        self.shared_inplace = []
        self.phi_init = {}
        self._inpl = {}
        self.frames = []
        self.loops = []
        self.withs = []
        self.trys = []
        self.closures = {}
        self.types = {}
        self.quiet = 0
        self.inlined = set()
        self._mods = {}
        self._gl = {}
        self.nfun = 0

    # ------------------------------------------------------------ entry
    undef_reads = set()

    def run(self, qual, selfcls=None, args=None):
        """analyse function `qual`, parameters symbolic"""
        f = self.repo.func(qual) if isinstance(qual, str) else qual
        env = {}
        heap = {}
        cls = self.repo.cls(selfcls) if selfcls else f.cls
        st = State(env, heap, TRUE, {})
        params = f.params()
        decos = f.deco()
        for i, p in enumerate(params):
            if i == 0 and f.cls is not None and 'staticmethod' not in decos:
                if 'classmethod' in decos:
                    env[p] = T('cls', cls.name)
                else:
                    env[p] = sym('self')
                    self.types[env[p]] = cls
            else:
                env[p] = (args or {}).get(p, sym(p))
        a = f.node.args
        for x in a.kwonlyargs:
            env[x.arg] = sym(x.arg)
        if a.vararg:
            env[a.vararg.arg] = sym('*' + a.vararg.arg)
        if a.kwarg:
            env[a.kwarg.arg] = sym('**' + a.kwarg.arg)
        # what the caller's argument objects hold at the end: follows in-place changes, not rebinding
        for p in [x for x in env if env[x].op == 'sym' and env[x].args[0] == x]:
            env['$@' + p] = env[p]
        fr = Frame(f, cls, f.mod)
        self.frames = [fr]
        self.nfun += 1
        self.exec_block(f.node.body, st)
        if st.pc is not FALSE:
            fr.returns.append((st.pc, NONE, st.copy()))
        self.returns = fr.returns
        self.final = self.merge_returns(fr.returns, TRUE, st)
        return self

    # ------------------------------------------------------------ events
    def emit(self, kind, st, node, **kw):
        if self.quiet:
            return None
        self.seq += 1
        e = Event(kind, guard=st.pc, loops=tuple(self.loops), withs=tuple(self.withs), trys=tuple(self.trys),
                  line=getattr(node, 'lineno', None), where=self.frames[-1].where, seq=self.seq, **kw)
        self.events.append(e)
        return e

    # ------------------------------------------------------------ merging
    def merge2(self, c, a, b, basepc):
        """state that is a when c else b"""
        if a.pc is FALSE:
            return b
        if b.pc is FALSE:
            return a
        env = {}
        for k in a.env:
            if k in b.env:
                env[k] = ite(c, a.env[k], b.env[k])
            else:
                env[k] = ite(c, a.env[k], T('undef'))
        for k in b.env:
            if k not in a.env:
                env[k] = ite(c, T('undef'), b.env[k])
        heap = {}
        for k in dict.fromkeys(list(a.heap) + list(b.heap)):
            va = a.heap[k] if k in a.heap else self.raw_load(k[0], k[1], a)
            vb = b.heap[k] if k in b.heap else self.raw_load(k[0], k[1], b)
            heap[k] = ite(c, va, vb)
        havoc = {}
        for k in dict.fromkeys(list(a.havoc) + list(b.havoc)):
            va, vb = a.havoc.get(k, ()), b.havoc.get(k, ())
            n = 0
            while n < len(va) and n < len(vb) and va[n] == vb[n]:
                n += 1
            havoc[k] = va[:n]
            if va[n:] or vb[n:]:
                havoc[k] += ((c, va[n:], vb[n:]),)
        return State(env, heap, or_(a.pc, b.pc), havoc)

    @classmethod
    def version(cls, chain, base, below=None):
        """which of the opaque calls recorded in the chain last changed this field of this object"""
        if not chain:
            return below
        below = cls.version(chain[:-1], base, below)
        e = chain[-1]
        if len(e) == 2:
            return e[1] if base in e[0] or root(base) in e[0] else below
        a, b = cls.version(e[1], base, below), cls.version(e[2], base, below)
        if a is b:
            return a
        return ite(e[0], NONE if a is None else a, NONE if b is None else b)

    @classmethod
    def rw_chain(cls, chain, rw):
        out = []
        for e in chain:
            if len(e) == 2:
                out.append((e[0] | frozenset(rw(x) for x in e[0]), rw(e[1])))
            else:
                out.append((rw(e[0]), cls.rw_chain(e[1], rw), cls.rw_chain(e[2], rw)))
        return tuple(out)

    def merge_returns(self, rets, basepc, st):
        if not rets:
            s = st.copy()
            s.pc = FALSE
            s.env = dict(s.env)
            s.env['$ret'] = NONE
            return s
        states = []
        for pc, v, s in rets:
            s = s.copy()
            env = dict((k, x) for k, x in s.env.items() if k[0] == '$')
            env['$ret'] = v
            s.env = env
            states.append((pc, s))
        conj = lambda p_: set(p_.args) if p_.op == 'and' else {p_}
        common = conj(states[0][0])
        for pc, s in states[1:]:
            common = common & conj(pc)
        basepc = and_(basepc, *sorted(common, key=lambda t: t.uid))
        cur = states[-1][1]
        for pc, s in reversed(states[:-1]):
            cur = self.merge2(self.rel(pc, basepc), s, cur, basepc)
        return cur

    @staticmethod
    def rel(pc, basepc):
        base = set(basepc.args) if basepc.op == 'and' else {basepc}
        cur = set(pc.args) if pc.op == 'and' else {pc}
        r = sorted(cur - base, key=lambda t: t.uid)
        return and_(*r) if r else TRUE

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st):
        for s in stmts:
            if st.pc is FALSE:
                return
            self.exec_stmt(s, st)

    def exec_stmt(self, s, st):
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            return
        m(s, st)

    def x_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, st)

    def x_Assign(self, s, st):
        v = self.eval(s.value, st)
        if isinstance(s.value, ast.Name):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.named_twice.add(frozenset((t.id, s.value.id)))
        for t in s.targets:
            self.assign(t, v, st, s)

    def x_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st, s)

    def x_AugAssign(self, s, st):
        load = self._as_load(s.target)
        old = self.eval(load, st)
        v = self.binop(s.op, old, self.eval(s.value, st))
        if isinstance(s.target, ast.Name):
            if not self.quiet:
                self.inplace.append((old, s.lineno))
                for p in self.named_twice:
                    if s.target.id in p and len(p) == 2 and not (p & self.single_numbers()):
                        x, y = [self.entered(st.env.get(n)) for n in p]
                        if x is y and x is not None:
                            self.shared_inplace.append((x, s.lineno))
                            self.shared_inplace.append((old, s.lineno))
            o = old
            while o.op == 'upd':
                o = o.args[0]
            if o.op == 'alloc' and o.args[0].startswith('numpy.') or o.op == 'copy' and o.args[1] == 'full':
                self.replace_alias(old, v, st)
        self.assign(s.target, v, st, s, aug=type(s.op).__name__, old=old)

    def single_numbers(self):
        """names a branch decides on by comparing them as such: single numbers, not arrays"""
        f = self.frames[-1].func
        if f is None:
            return set()
        if getattr(f, '_single', None) is None:
            f._single = set()
            for x in ast.walk(f.node):
                tests = [x.test] if isinstance(x, (ast.If, ast.While)) else []
                while tests:
                    t = tests.pop()
                    if isinstance(t, ast.BoolOp):
                        tests.extend(t.values)
                    elif isinstance(t, ast.Compare) and isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                        f._single.update(y.id for y in [t.left] + t.comparators if isinstance(y, ast.Name))
        return f._single

    def entered(self, t):
        """the value with which a loop-carried name entered its loops"""
        while t in self.phi_init:
            t = self.phi_init[t]
        return t

    @staticmethod
    def _as_load(t):
        import copy
        t = copy.copy(t)
        t.ctx = ast.Load()
        return t

    def x_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else NONE
        self.emit('return', st, s, value=v)
        self.frames[-1].returns.append((st.pc, v, st.copy()))
        st.pc = FALSE

    def x_Raise(self, s, st):
        v = self.eval(s.exc, st) if s.exc is not None else NONE
        self.emit('raise', st, s, value=v)
        st.pc = FALSE

    def x_Assert(self, s, st):
        c = truth(self.eval(s.test, st))
        st.pc = and_(st.pc, c)

    def x_Pass(self, s, st):
        pass

    def x_Global(self, s, st):
        pass

    def x_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Attribute):
                b = self.eval(t.value, st)
                self.emit('del', st, s, base=b, attr=t.attr)
            elif isinstance(t, ast.Name):
                self.emit('del', st, s, base=st.env.get(t.id, NONE))

    def x_Import(self, s, st):
        pass

    x_ImportFrom = x_Import

    def x_FunctionDef(self, s, st):
        st.env[s.name] = self.mk_closure(s, st)

    def mk_closure(self, node, st):
        uid = fresh_id()
        tmp = T('closure', uid, NONE)
        self.closures[tmp] = (node, dict(st.env), self.frames[-1])
        a = node.args
        n = len(a.posonlyargs + a.args)
        body = T('opaque', 'closure', 0)
        if not (a.vararg or a.kwarg or a.kwonlyargs) and len(self.frames) < self.maxdepth and \
                sum(1 for fr in self.frames if fr.func is not None and fr.func.node is node) == 0:
            self.quiet += 1
            s2 = st.copy()
            s2.pc = TRUE
            body = self.closure_call(tmp, [sym('lam%d' % i) for i in range(n)], {}, s2, node)
            self.quiet -= 1
        t = T('closure', uid, T('lam', n, body))
        self.closures[t] = self.closures[tmp]
        return t

    def x_If(self, s, st):
        c = truth(self.eval(s.test, st))
        a, b = st.copy(), st.copy()
        a.pc = and_(st.pc, c)
        b.pc = and_(st.pc, not_(c))
        if a.pc is not FALSE:
            self.exec_block(s.body, a)
        if b.pc is not FALSE:
            self.exec_block(s.orelse, b)
        m = self.merge2(c, a, b, st.pc)
        st.adopt(m)

    def x_For(self, s, st):
        it = self.counted(self.eval(s.iter, st))
        items = self.items(it)
        if items is not None and len(items) * sum(1 for x in ast.walk(s) if isinstance(x, ast.stmt)) <= 160:
            self.unroll(s, st, items)
        else:
            self.loop(s, st, it)

    @staticmethod
    def counted(it):
        """0, 1, ... n written out is a range"""
        if it.op in ('list', 'tuple') and len(it.args) > 1 and all(x is num(i) for i, x in enumerate(it.args)):
            return T('call', 'range', (num(len(it.args)),), ())
        return it

    def items(self, it):
        """the elements of a sequence that is written out, each with the condition under which it is present"""
        r = None
        if it.op in ('list', 'tuple'):
            r = [(TRUE, x) for x in it.args]
        elif it.op in ('copy', 'cast'):
            return self.items(it.args[0])
        elif it.op == 'call' and isinstance(it.args[0], Term) and it.args[0].op == 'meth' and it.args[0].args[0].op == 'dict' and not it.args[1] and \
                it.args[0].args[1] in ('items', 'keys', 'values') and all(x.args[0] is not NONE for x in it.args[0].args[0].args):
            d, m = it.args[0].args[:2]
            r = [(TRUE, x if m == 'items' else x.args[0 if m == 'keys' else 1]) for x in d.args]
        elif it.op == 'append':
            r = self.items(it.args[0])
            r = r and r + [(TRUE, it.args[1])]
        elif it.op == 'ite' and self.is_scalar_cond(it.args[0]):
            c = it.args[0]
            x = self.items(it.args[1])
            y = x and self.items(it.args[2])
            if not y:
                return None
            k = 0
            while k < len(x) and k < len(y) and x[k][0] is y[k][0]:
                k += 1
            r = [(g, ite(c, p, q)) for (g, p), (_, q) in zip(x[:k], y[:k])]
            r += [(and_(c, g), p) for g, p in x[k:]] + [(and_(not_(c), g), q) for g, q in y[k:]]
        elif it.op == 'call' and it.args[0] == 'enumerate' and it.args[1]:
            r = self.items(it.args[1][0])
            if r is None or any(g is not TRUE for g, x in r):
                return None
            k = it.args[1][1] if len(it.args[1]) > 1 else dict(it.args[2]).get('start', ZERO)
            r = [(g, T('tuple', add(k, num(i)), x)) for i, (g, x) in enumerate(r)]
        elif it.op == 'call' and it.args[0] == 'zip' and it.args[1]:
            rs = [self.items(x) for x in it.args[1]]
            if any(r is None or any(g is not TRUE for g, x in r) for r in rs):
                return None
            r = [(TRUE, T('tuple', *[x for g, x in xs])) for xs in zip(*rs)]
        return r if r is not None and 0 < len(r) <= 16 else None

    @staticmethod
    def is_scalar_cond(c):
        return True

    def unroll(self, s, st, items):
        fr = self.frames[-1]
        entry0 = st.pc
        brk = []
        for g, x in items:
            if st.pc is FALSE:
                break
            entry = st.pc
            a = st.copy()
            a.pc = and_(st.pc, g)
            if a.pc is FALSE:
                continue
            self.assign(s.target, x, a, s)
            fr.loopctl.append([])
            self.exec_block(s.body, a)
            for kind, pc, c in reversed(fr.loopctl.pop()):
                if kind == 'break':
                    brk.append((pc, c))
                elif a.pc is FALSE:
                    a = c
                else:
                    a = self.merge2(self.rel(pc, entry), c, a, entry)
            m = self.merge2(g, a, st, entry) if g is not TRUE else a
            st.adopt(m)
        if s.orelse and st.pc is not FALSE:
            self.exec_block(s.orelse, st)
        for pc, c in reversed(brk):
            if st.pc is FALSE:
                st.adopt(c)
            else:
                st.adopt(self.merge2(self.rel(pc, entry0), c, st, entry0))

    def x_While(self, s, st):
        self.loop(s, st, None)

    def _rng(self, it):
        """canonical iterated sequence: ranges become (offset, ('range', n))"""
        if it.op == 'call' and it.args[0] in ('range', 'numpy.arange') and not it.args[2]:
            a = it.args[1]
            if len(a) == 1:
                return ZERO, a[0]
            if len(a) == 2:
                return a[0], sub(a[1], a[0])
            if len(a) == 3 and a[2] is ONE:
                return a[0], sub(a[1], a[0])
            if len(a) == 3 and a[2] is num(-1):
                return a[0], sub(a[0], a[1]), -1
        return None

    def iter_key(self, it):
        """the number of iterations"""
        r = self._rng(it)
        if r is not None:
            return r[1]
        if it.op == 'call' and it.args[0] in ('enumerate', 'zip') and it.args[1]:
            return self.iter_key(it.args[1][0])
        if it.op in ('copy', 'cast'):
            return self.iter_key(it.args[0])
        if as_is(it):
            return self.iter_key(it.args[1][0])
        if it.op == 'call' and it.args[0] == 'numpy.transpose':
            return self.mk_idx(T('attr', it.args[1][0], 'shape'), ONE)
        return self.size(it)

    def it_term(self, key):
        k = max(len(self.loops) - 1, 0)
        return T('it', key, k)

    def loop(self, s, st, it):
        pre = st.copy()
        uid = fresh_id()
        lab = T('loop', uid)
        ev0 = len(self.events)
        ret0 = len(self.frames[-1].returns)
        cenv, cheap = [], []
        lmemo = {}
        known = set(root(v) for v in pre.env.values() if isinstance(v, Term))
        known |= set(root(v) for v in pre.heap.values())
        known |= set(root(k[0]) for k in pre.heap)

        def local(t):
            if newer(t, uid, lmemo):
                return True
            r_ = root(t)
            if r_.op == 'call' and r_ not in known:
                return True
            return any(x.op == 'phi' and x.args[0] is lab for x in subterms(t))
        getp = lambda k: pre.heap[k] if k in pre.heap else self.raw_load(k[0], k[1], pre)
        rep = {}
        for rnd in range(6):
            self.quiet += 1
            ur, self.undef_reads = self.undef_reads, set()
            nfr = len(self.frames[-1].returns)
            probe = pre.copy()
            probe.pc = TRUE
            for k in cenv:
                probe.env[k] = T('phi', lab, T('str', rep.get(k, k)))
            for k in cheap:
                probe.heap[k] = T('phi', lab, T('cell', k[0], k[1]))
            base = probe.copy()
            self._loop_body(s, probe, it, uid)
            del self.frames[-1].returns[nfr:]
            self.quiet -= 1
            late = [k for k in self.undef_reads if k in probe.env and k not in pre.env]
            self.undef_reads = ur
            if late and rnd < 5:
                for k in late:
                    pre.env[k] = T('undef')
                    st.env[k] = T('undef')
                continue
            ne = [k for k in probe.env if k in pre.env and k not in cenv and probe.env[k] is not base.env[k] and self.frames[-1].reads(k)]
            nh = []
            for k in probe.heap:
                if k in cheap or local(k[0]):
                    continue
                if probe.heap[k] is not getp(k):
                    nh.append(k)
            # names of one object stay names of one object
            apart = [k for k in rep if probe.env.get(k) is not probe.env.get(rep[k])]
            for k in apart:
                del rep[k]
            if not ne and not nh and not apart:
                break
            for i, k in enumerate(ne):
                for k2 in ne[:i]:
                    if pre.env[k] is pre.env[k2] and probe.env[k] is probe.env[k2] and k2 not in rep:
                        rep[k] = k2
                        break
            cenv += ne
            cheap += nh
        body = pre.copy()
        for k in cenv:
            body.env[k] = T('phi', lab, T('str', rep.get(k, k)))
            self.phi_init[body.env[k]] = pre.env[k]
        for k in cheap:
            body.heap[k] = T('phi', lab, T('cell', k[0], k[1]))
        pcentry = body.pc
        after, brk, cond = self._loop_body(s, body, it, uid)
        # recurrence system
        nxt, ini = {}, {}
        for k in cenv:
            p_ = T('phi', lab, T('str', rep.get(k, k)))
            ini[p_], nxt[p_] = pre.env[k], after.env.get(k, NONE)
        for k in cheap:
            p_ = T('phi', lab, T('cell', k[0], k[1]))
            ini[p_] = getp(k)
            nxt[p_] = after.heap.get(k, ini[p_])
        kind = 'for' if it is not None else 'while'
        key = self.iter_key(it) if it is not None else None
        done_ = [self.rel(e.guard, pcentry) for e in self.events[ev0:] if isinstance(e.guard, Term) and e.kind not in ('continue', 'break', 'assign')]
        done_ += [self.rel(r_[0], pcentry) for r_ in self.frames[-1].returns[ret0:]]
        sub_, outs = self.solve(kind, key, cond, brk, ini, nxt, lab, pcentry, done_)
        # rewrite everything that mentioned the loop-carried symbols
        memo = {}
        if kind == 'while' and sub_['label'].args[0] == 'for':
            fn = lambda x: sub_.get(x) or (self.mk_idx(*x.args) if x.op == 'idx' and x.args[1].op == 'it' else None)
        else:
            fn = lambda x: sub_.get(x)
        rw = lambda t: rewrite(t, fn, memo) if isinstance(t, Term) else t
        newlab = rw(sub_['label'])
        for e in self.events[ev0:]:
            self._rw_event(e, rw, uid, newlab)
        rets = self.frames[-1].returns
        exitg = []
        follows = lambda t: any(x.op == 'phi' and x.args[0] is lab and (x not in sub_ or sub_[x].op == 'mu') for x in subterms(t))
        moving = any(follows(self.rel(r_[0], pcentry)) for r_ in rets[ret0:])
        for i in range(ret0, len(rets)):
            pc, v, rs = rets[i]
            pc = rw(pc)
            exitg.append(self.rel(pc, pcentry))
            rs.env = dict((k, rw(v2)) for k, v2 in rs.env.items())
            rs.heap = dict((k, rw(v2)) for k, v2 in rs.heap.items())
            rs.pc = rw(rs.pc)
            rs.havoc = dict((k, self.rw_chain(v2, rw)) for k, v2 in rs.havoc.items())
            rets[i] = (pc, rw(v), rs)
        if exitg:
            # a return in a loop happens in the first iteration that reaches it
            anyg = or_(*exitg)
            left = self.some_iteration(newlab, anyg, moving)
            at = lambda t: self.first_iteration(newlab, anyg, t, moving)
            for i, g in zip(range(ret0, len(rets)), exitg):
                pc, v, rs = rets[i]
                pc = and_(pcentry, left, truth(at(g)) if len(exitg) > 1 else TRUE)
                rs.env = dict((k, v2 if pre.env.get(k) is v2 else at(v2)) for k, v2 in rs.env.items())
                rs.heap = dict((k, v2 if pre.heap.get(k) is v2 else at(v2)) for k, v2 in rs.heap.items())
                rs.pc = pc
                rets[i] = (pc, at(v), rs)
        out = pre.copy()
        out.havoc = dict((k, self.rw_chain(v, rw)) for k, v in after.havoc.items())
        for k in cenv:
            out.env[k] = rw(outs[T('phi', lab, T('str', rep.get(k, k)))])
        for k in after.env:
            if k not in pre.env:
                out.env[k] = T('last', newlab, rw(after.env[k]))
        for k in list(dict.fromkeys(list(cheap) + list(after.heap))):
            p_ = T('phi', lab, T('cell', k[0], k[1]))
            k2 = (rw(k[0]), k[1])
            if p_ in outs:
                if k2 is not k and k2 != k:
                    out.heap.pop(k, None)
                out.heap[k2] = rw(outs[p_])
            else:
                v = after.heap.get(k)
                i0 = getp(k)
                if v is None or v is i0:
                    continue
                out.heap[k2] = T('last', newlab, rw(v)) if local(k[0]) else T('out', newlab, rw(i0), rw(v))
        out.pc = pre.pc
        if exitg:
            out.pc = and_(out.pc, not_(left))
        if s.orelse:
            if brk is FALSE:
                self.exec_block(s.orelse, out)
            else:
                c = self.some_iteration(newlab, rw(brk), follows(brk))
                done, entry = out.copy(), out.pc
                out.pc = and_(entry, not_(c))
                self.exec_block(s.orelse, out)
                done.pc = and_(entry, c)
                if out.pc is FALSE:
                    out.adopt(done)
                else:
                    pc2 = or_(out.pc, done.pc) if out.pc is not and_(entry, not_(c)) else entry
                    m = self.merge2(c, done, out, entry)
                    out.adopt(m)
                    out.pc = pc2
        st.adopt(out)

    def some_iteration(self, newlab, c, moving):
        if newlab.args[0] == 'for' and not moving:
            return some(newlab.args[1], c)
        return T('exited', newlab, c)

    def first_iteration(self, newlab, c, v, moving):
        k = len(self.loops)
        if newlab.args[0] == 'for':
            lab = newlab
            if not moving:
                lab = T('loopk', 'for', newlab.args[1], FALSE)
            if not any((x.op == 'it' and x.args[1] == k) or (x.op == 'elem' and x.args[1] == k) or x.op in ('mu', 'mu0') or x is newlab for x in subterms(v)):
                return v
        else:
            lab = newlab
            if not any(x.op in ('mu', 'mu0') or x is newlab for x in subterms(v)):
                return v
        if v is c:
            return TRUE
        return T('first', lab, c, v)

    def _rw_event(self, e, rw, uid, newlab):
        for f in ('base', 'index', 'value', 'guard', 'term', 'old'):
            v = getattr(e, f)
            if isinstance(v, Term):
                setattr(e, f, rw(v))
        if isinstance(e.callee, Term):
            e.callee = rw(e.callee)
        if e.args:
            e.args = tuple(rw(x) for x in e.args)
        if e.kwargs:
            e.kwargs = dict((k, rw(v)) for k, v in e.kwargs.items())
        if e.snap:
            e.snap = dict(((rw(b), a), rw(v)) for (b, a), v in e.snap.items())
        e.loops = tuple((l[0], l[1], rw(l[2]), l[3], newlab if l[0] == uid else (rw(l[4]) if len(l) > 4 and isinstance(l[4], Term) else None))
                        for l in e.loops)

    def solve(self, kind, key, cond, brk, ini, nxt, lab, pcentry, does=()):
        """canonical names for the loop-carried symbols (bisimulation refinement)"""
        sub_ = {}
        outs = {}
        cond, brk, nxt, ends = self.flags(kind, cond, brk, ini, nxt, does)
        sub_.update((p_, FALSE) for p_ in ends)
        # closed forms
        cnt = None
        if kind == 'while' and cond is not None:
            # i = 0; while i < n: ...; i += 1
            for p_ in list(nxt):
                n_ = nxt[p_]
                while brk is not FALSE and n_.op == 'ite' and n_ is not add(p_, ONE):
                    if implied(n_.args[0], brk):
                        n_ = n_.args[2]
                    elif implied(not_(n_.args[0]), brk):
                        n_ = n_.args[1]
                    else:
                        break
                if n_ is add(p_, ONE):
                    n = None
                    for bound in [cond]:
                        if bound.op == 'lt0' and bound.args[0].op == 'sum':
                            q = bound.args[0]
                            for c_, m_ in q.args:
                                if (m_ is p_ or m_ is T('prod', (p_, Fraction(1)))) and c_ > 0:
                                    q = mul(num(1 / c_), q)
                                    break
                            q = sub(q, p_)
                            if p_ not in set(subterms(q)):
                                n = neg(q)
                        elif bound.op == 'ne0' and False:
                            pass
                    if n is not None and not any(x in ini and nxt[x] is not x for x in subterms(n)):
                        span = sub(n, ini[p_])
                        key = span
                        kind = 'for'
                        idx_ = T('it', key, len(self.loops))
                        sub_[p_] = add(ini[p_], idx_)
                        outs[p_] = n if brk is FALSE else T('last', T('loopk', 'for', key, rewrite(brk, lambda x: sub_.get(x))), nxt[p_])
                        sub_[cond] = TRUE
                        sub_[rewrite(cond, lambda x: sub_.get(x) if x is p_ else None)] = TRUE
                        cond = None
                        cnt = p_
                        break
        if kind == 'for':
            for p_ in list(nxt):
                if p_ is cnt:
                    continue
                d = sub(nxt[p_], p_) if nxt[p_].op in ('sum',) else None
                if d is not None and d.op == 'num' and brk is FALSE:
                    k = len(self.loops)
                    sub_[p_] = add(ini[p_], mul(d, T('it', key, k)))
                    outs[p_] = add(ini[p_], mul(d, key))
        rest = [p_ for p_ in nxt if p_ not in sub_]
        memo0 = {}
        f0 = lambda x: sub_.get(x)
        r0 = lambda t: rewrite(t, f0, memo0)
        lab0 = T('loopk', kind, key if key is not None else r0(cond if cond is not None else NONE), r0(brk))
        # list accumulation -> comprehension
        for p_ in list(rest):
            el = None
            n_ = nxt[p_]
            g = TRUE
            empty = ini[p_].op == 'list' and not ini[p_].args or (ini[p_].op == 'alloc' and ini[p_].args[0] == 'list')
            if kind == 'for' and empty and brk is FALSE:
                if n_.op == 'append' and n_.args[0] is p_:
                    el = n_.args[1]
                elif n_.op == 'ite' and n_.args[1].op == 'append' and n_.args[1].args[0] is p_ and n_.args[2] is p_:
                    el, g = n_.args[1].args[1], n_.args[0]
                elif n_.op == 'ite' and n_.args[2].op == 'append' and n_.args[2].args[0] is p_ and n_.args[1] is p_:
                    el, g = n_.args[2].args[1], not_(n_.args[0])
            if el is not None and p_ not in set(subterms(el)) and p_ not in set(subterms(g)):
                outs[p_] = T('comp', 'list', el, T('gen', key, g))
        # the first match and the mere presence of a match
        for p_ in list(rest):
            n_ = nxt[p_]
            if kind != 'for' or p_ in outs or n_.op != 'ite':
                continue
            c, v = (n_.args[0], n_.args[1]) if n_.args[2] is p_ else (not_(n_.args[0]), n_.args[2]) if n_.args[1] is p_ else (None, None)
            if c is None or any(x.op == 'phi' and x.args[0] is lab and x not in sub_ for x in subterms(T('tuple', c, v))):
                continue
            c, v = r0(c), r0(v)
            k = len(self.loops)
            fixed = not any(x.op in ('it', 'elem') and x.args[1] == k for x in subterms(v))
            if brk is not FALSE and r0(brk) is not c:
                continue
            if not fixed and brk is FALSE:
                continue
            outs[p_] = ite(some(key, c), v if fixed else T('first', T('loopk', 'for', key, FALSE), c, v), ini[p_])
        col = dict((p_, T('mu0', ini[p_])) for p_ in rest)
        for rnd in range(2):
            memo = {}
            cur = dict(col)
            fn = lambda x: cur.get(x) or sub_.get(x)
            rw = lambda t: rewrite(t, fn, memo)
            l_ = rw(lab0)
            col = dict((p_, T('mu', l_, ini[p_], rw(nxt[p_]))) for p_ in rest)
        sub_.update(col)
        sub_['label'] = lab0
        for p_ in rest:
            if p_ not in outs:
                outs[p_] = T('out', col[p_])
        for p_ in ends:
            outs[p_] = T('out', T('mu', lab0, FALSE, rw(nxt[p_])))
        return sub_, outs

    def flags(self, kind, cond, brk, ini, nxt, does):
        """flags that end the loop (a condition of the loop, or nothing happens once they are set) are ways to leave it"""
        ends = []
        nxt = dict(nxt)

        def fix(p_):
            memo = {}
            f = lambda x: FALSE if x is p_ else None
            ends.append(p_)
            for x in nxt:
                nxt[x] = rewrite(nxt[x], f, memo)
            return rewrite(brk, f, memo)
        flag = lambda p_: ini[p_] is FALSE and p_ not in ends and p_.args[1].op == 'str'
        for again in range(2):
            for p_ in list(nxt):
                if not flag(p_):
                    continue
                n_ = rewrite(nxt[p_], lambda x: FALSE if x is p_ else None)
                if not is_bool(n_) and n_.op != 'phi':
                    continue
                if kind == 'while' and cond is not None:
                    cs = list(cond.args) if cond.op == 'and' else [cond]
                    if not_(p_) in cs:
                        cs.remove(not_(p_))
                        c = and_(*cs) if cs else TRUE
                        if any(x is p_ for x in subterms(c)):
                            continue
                        cond = c
                        brk = or_(fix(p_), n_)
                        continue
                b = rewrite(brk, lambda x: FALSE if x is p_ else None)
                if n_ is FALSE or b is not FALSE and implied(n_, b):
                    if n_ is not FALSE:
                        brk = fix(p_)
                    continue
                if kind == 'for':
                    on = lambda t: rewrite(t, lambda x: TRUE if x is p_ else None)
                    if all(on(nxt[x]) is x or x in ends for x in nxt if x is not p_) and on(nxt[p_]) is TRUE and \
                            all(on(g) is FALSE for g in does):
                        brk = or_(fix(p_), n_)
        return cond, brk, nxt, ends

    def _loop_body(self, s, st, it, uid):
        fr = self.frames[-1]
        entry = st.pc
        cond = None
        if it is None:
            c = cond = truth(self.eval(s.test, st))
            self.loops.append((uid, 'while', c, s.lineno, None))
            st.pc = and_(st.pc, c)
        else:
            self.loops.append((uid, 'for', self.iter_key(it), s.lineno, None))
            self.bind_iter(s.target, it, st, s, uid)
        fr.loopctl.append([])
        self.exec_block(s.body, st)
        ctl = fr.loopctl.pop()
        self.loops.pop()
        # merge fallthrough, continue and break states
        cur = st
        brk = []
        for kind, pc, c in reversed(ctl):
            if kind == 'break':
                brk.append(self.rel(pc, entry))
            if cur.pc is FALSE:
                cur = c
            else:
                cur = self.merge2(self.rel(pc, entry), c, cur, entry)
        if cur is not st:
            st.adopt(cur)
        return st, (or_(*brk) if brk else FALSE), cond

    def x_Break(self, s, st):
        self.emit('break', st, s)
        ctl = self.frames[-1].loopctl
        if ctl:
            ctl[-1].append(('break', st.pc, st.copy()))
        st.pc = FALSE

    def x_Continue(self, s, st):
        self.emit('continue', st, s)
        ctl = self.frames[-1].loopctl
        if ctl:
            ctl[-1].append(('continue', st.pc, st.copy()))
        st.pc = FALSE

    def bind_iter(self, target, it, st, node, uid):
        """bind loop target to the generic element of `it`"""
        if it.op == 'call' and it.args[0] == 'enumerate' and it.args[1]:
            xs = it.args[1][0]
            i = self.it_term(self.iter_key(it))
            if len(it.args[1]) > 1:
                i = add(i, it.args[1][1])
            if 'start' in dict(it.args[2]):
                i = add(i, dict(it.args[2])['start'])
            el = self.element(xs, self.iter_key(it))
            self.assign(target, T('tuple', i, el), st, node)
        else:
            self.assign(target, self.element(it, self.iter_key(it)), st, node)

    def element(self, xs, key):
        i = self.it_term(key)
        while as_is(xs):
            xs = xs.args[1][0]
        if xs.op == 'call' and xs.args[0] == 'zip':
            return T('tuple', *[self.element(x, key) for x in xs.args[1]])
        r = self._rng(xs)
        if r is not None:
            return add(r[0], i) if len(r) == 2 else sub(r[0], i)
        if xs.op == 'call' and xs.args[0] == 'numpy.transpose':
            return self.mk_idx(xs.args[1][0], T('tuple', FULL, i))
        return self.mk_idx(xs, i)

    def x_With(self, s, st):
        n = 0
        for i in s.items:
            v = self.eval(i.context_expr, st)
            self.withs.append(v)
            n += 1
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, st, s)
        self.exec_block(s.body, st)
        for _ in range(n):
            self.withs.pop()

    def missing_key(self, s, types, st):
        """the condition of `try: v = d['k'] / except KeyError`"""
        if types != ['KeyError'] or len(s.body) != 1 or s.orelse or not isinstance(s.body[0], (ast.Assign, ast.Return)):
            return None
        v = s.body[0].value
        if not isinstance(v, ast.Subscript) or isinstance(v.slice, ast.Slice):
            return None
        k = self.eval(v.slice, st)
        return not_(self.member(k, self.eval(v.value, st))) if k.op == 'str' else None

    def x_Try(self, s, st):
        pre = st.copy()
        uid = fresh_id()
        types = []
        for h in s.handlers:
            types.append(ast.unparse(h.type) if h.type is not None else '')
        self.trys.append((uid, tuple(types), bool(s.finalbody)))
        r0 = len(self.frames[-1].returns)
        missing = self.missing_key(s, types, st)
        self.exec_block(s.body, st)
        self.trys.pop()
        if s.handlers:
            # what the protected part returns is returned only when nothing was raised
            rets = self.frames[-1].returns
            none = and_(*[not_(missing or T('exc', uid, ty)) for ty in types])
            for i in range(r0, len(rets)):
                rets[i] = (and_(rets[i][0], none),) + tuple(rets[i][1:])
        if s.orelse:
            self.exec_block(s.orelse, st)
        for h, ty in zip(s.handlers, types):
            hs = pre.copy()
            e = missing or T('exc', uid, ty)
            hs.pc = and_(pre.pc, e)
            if h.name:
                hs.env[h.name] = T('excval', e)
            self.emit('handler', hs, h, value=T('str', ty))
            self.exec_block(h.body, hs)
            if hs.pc is FALSE:
                continue
            if st.pc is FALSE:
                st.adopt(hs)
            else:
                m = self.merge2(e, hs, st, pre.pc)
                # control reaches here whether or not the exception was raised
                if hs.pc is and_(pre.pc, e):
                    m.pc = st.pc
                st.adopt(m)
        if s.finalbody:
            live = st.pc
            if live is FALSE:
                f = pre.copy()
                self.exec_block(s.finalbody, f)
            else:
                self.exec_block(s.finalbody, st)

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st, node, aug=None, old=None):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            if t.id in self.hints and v not in self.types and v.op in ('call', 'elem', 'mcall', 'copy', 'idx'):
                pass
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, T('idx', v, T('str', 'star%d' % i)), st, node)
                    continue
                self.assign(e, self.item(v, i, n), st, node)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st)
            self.store(b, t.attr, None, v, st, node, aug, old)
        elif isinstance(t, ast.Subscript):
            i = self.index(t.slice, st)
            tv = t.value
            if i.op == 'str':
                b = self.eval(tv, st)
                self.store(b, i.args[0], None, v, st, node, aug, old)
                return
            # obj.attr[...] = v   /  var['COL'][...] = v
            if isinstance(tv, ast.Attribute):
                b = self.eval(tv.value, st)
                if not (b.op == 'sym' and b.args[0] in ('numpy',)):
                    self.store(b, tv.attr, i, v, st, node, aug, old)
                    return
            if isinstance(tv, ast.Subscript):
                j = self.index(tv.slice, st)
                if j.op == 'str':
                    b = self.eval(tv.value, st)
                    self.store(b, j.args[0], i, v, st, node, aug, old)
                    return
            b = self.eval(tv, st)
            self.store(b, None, i, v, st, node, aug, old)
            if i is FULL:
                nv = v
            else:
                nv = tm.upd(b, i, v)
            if isinstance(tv, ast.Name):
                if not self.quiet:
                    self.inplace.append((self.entered(b), getattr(node, 'lineno', None)))
                self.alias_up(tv.id, b, nv, st)
            self.replace_alias(b, nv, st, tv.id if isinstance(tv, ast.Name) else None)
            if b.op == 'idx' and self.is_view(b.args[1]):
                # written through a view of another array
                x = b.args[0]
                if x.op in ('attr', 'attrv', 'alloc', 'upd', 'copy', 'phi', 'mu', 'out', 'sym', 'call', 'idx', 'ite'):
                    nx = tm.upd(x, b.args[1], nv)
                    for k in [k for k, y in st.env.items() if y is x]:
                        st.env[k] = nx
                        if not k.startswith('$'):
                            self.alias_up(k, x, nx, st)
                    hit = False
                    for k in [k for k, y in st.heap.items() if y is x]:
                        st.heap[k] = nx
                        hit = True
                    if not hit and x.op in ('attr', 'attrv'):
                        st.heap[(x.args[0], x.args[1])] = nx
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)

    @staticmethod
    def is_view(j):
        """an index that selects a part of the storage itself: fields by name, a single element, a range"""
        if j.op == 'idx' and j.args[1].op == 'num':
            j = j.args[0]
        if j.op in ('ite',):
            return Interp.is_view(j.args[1]) and Interp.is_view(j.args[2])
        if j.op == 'tuple':
            return any(x.op == 'slice' for x in j.args) and all(x.op in ('slice', 'it', 'num', 'elem') for x in j.args)
        return j.op in ('elem', 'it', 'num', 'str', 'slice', 'comp', 'gen', 'list', 'undef') or j.op == 'call' and j.args[0] == 'undef'

    def alias_up(self, name, old, new, st):
        """an in-place change of a parameter changes the caller's variable"""
        pre = ''
        for fr in reversed(self.frames):
            name = fr.alias.get(name)
            if name is None:
                return
            pre += '$'
            if st.env.get(pre + name) is not old:
                return
            st.env[pre + name] = new
            self.contents_up(pre + '$@' + name, old, new, st)

    @staticmethod
    def contents_up(key, old, new, st):
        h = st.env.get(key)
        if h is None:
            return

        def go(o):
            if o is h:
                return new
            if o.op == 'ite':
                a, b = go(o.args[1]), go(o.args[2])
                if a is not h or b is not h:
                    return ite(o.args[0], a, b)
            return h
        st.env[key] = go(old)

    def item(self, v, i, n):
        if v.op in ('tuple', 'list') and len(v.args) == n:
            return v.args[i]
        if v.op == 'ite':
            return ite(v.args[0], self.item(v.args[1], i, n), self.item(v.args[2], i, n))
        return T('idx', v, num(i))

    def replace_alias(self, old, new, st, name=None):
        if name is not None:
            st.env[name] = new
            self.contents_up('$@' + name, old, new, st)
        if old.op in ('attr', 'attrv', 'alloc', 'upd', 'copy', 'phi', 'out', 'sym', 'call', 'rand', 'idx'):
            for k, v in list(st.env.items()):
                if v is old:
                    st.env[k] = new
            hit = False
            for k, v in list(st.heap.items()):
                if v is old:
                    st.heap[k] = new
                    hit = True
            if not hit and old.op in ('attr', 'attrv'):
                st.heap[(old.args[0], old.args[1])] = new

    def canon(self, name):
        return name if name.startswith('__') else name.lower()

    def store(self, base, attr, index, v, st, node, aug=None, old=None):
        if attr is not None:
            attr = self.canon(attr)
        prev = self.load(base, attr, st) if attr is not None else base
        self.emit('store', st, node, base=base, attr=attr, index=None if index is FULL else index, value=v,
                  aug=aug, old=prev)
        if attr is None:
            return
        if index is None or index is FULL:
            nv = v
        else:
            nv = tm.upd(prev, index, v)
        if index is not None:
            # in-place: visible through aliases
            self.replace_alias(prev, nv, st)
        st.heap[(base, attr)] = nv

    # ------------------------------------------------------------ loads
    def raw_load(self, base, attr, st):
        v = self.version(st.havoc.get(attr, ()), base)
        if v is None or v is NONE:
            return T('attr', base, attr)
        return T('attrv', base, attr, v)

    def load(self, base, attr, st):
        attr = self.canon(attr)
        k = (base, attr)
        if k in st.heap:
            return st.heap[k]
        if base.op == 'ite' and base.args[1].op not in ('none',) and base.args[2].op not in ('none',):
            return ite(base.args[0], self.load(base.args[1], attr, st), self.load(base.args[2], attr, st))
        if base.op == 'idx' and base.args[1].op != 'num':
            inner = self.load(base.args[0], attr, st)
            if attr not in ('shape',):
                return self.mk_idx(inner, base.args[1])
        if base.op == 'copy':
            return self.inside(base, self.raw_load(base.args[0], attr, st))
        if base.op == 'new' and len(base.args) > 3 and base.args[3] == 'kw':
            pass
        return self.raw_load(base, attr, st)

    # ------------------------------------------------------------ types
    def typeof(self, t):
        if t in self.types:
            return self.types[t]
        if t.op == 'new':
            return self.repo.classes.get(t.args[0])
        if t.op in ('attr', 'attrv'):
            h = self.hints.get(t.args[1])
            return self.repo.classes.get(h) if h else None
        if t.op == 'sym':
            h = self.hints.get(t.args[0])
            return self.repo.classes.get(h) if h else None
        if t.op in ('copy', 'idx', 'upd', 'cast'):
            c = self.typeof(t.args[0])
            if t.op == 'idx' and c is not None and c.name == 'ClusterCatalog' and t.args[1].op in ('phi', 'it', 'num'):
                return self.repo.classes.get('Cluster')
            return c
        if t.op == 'ite':
            a, b = self.typeof(t.args[1]), self.typeof(t.args[2])
            return a if a is b or b is None else (b if a is None else None)
        if t.op == 'mu0':
            return self.typeof(t.args[0])
        if t.op == 'mu':
            return self.typeof(t.args[1])
        if t.op == 'out':
            return self.typeof(t.args[0] if len(t.args) == 1 else t.args[1])
        if t.op == 'last':
            return self.typeof(t.args[1])
        if t.op == 'phi':
            c = t.args[1]
            if c.op == 'cell':
                h = self.hints.get(c.args[1])
                return self.repo.classes.get(h) if h else None
        return None

    # ------------------------------------------------------------ expressions
    def eval(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return T('opaque', type(e).__name__, fresh_id())
        return m(e, st)

    def e_Constant(self, e, st):
        return const(e.value)

    def e_Name(self, e, st):
        if e.id in st.env:
            return st.env[e.id]
        fr = self.frames[-1]
        if e.id in fr.locals():
            self.undef_reads.add(e.id)
            return T('undef')
        return self.global_name(fr.mod, e.id)

    def global_name(self, mod, name):
        r = self.repo.resolve_name(mod, name)
        if self.specs is not None and mod.rel.startswith('spec:') and (r is None or isinstance(r, tuple)):
            g = self.specs.ghost_name(mod, name)
            if g is not None:
                return T('ghost', g.mod.real_rel, g.qual)
        if isinstance(r, Func):
            return T('fn', r.mod.dotted, r.qual)
        if isinstance(r, Class):
            return T('cls', r.name)
        if isinstance(r, Module):
            return T('mod', r.dotted)
        if isinstance(r, tuple):
            return sym(canon_ext(r[1]))
        if name in mod.globals:
            v = mod.globals[name]
            if isinstance(v, ast.Constant):
                return const(v.value)
            if '%s:%s' % (mod.rel.replace('spec:', ''), name) not in baseline_names() and not self._gl.get((mod.rel, name)):
                # a constant introduced by an edit: use its value
                self._gl[(mod.rel, name)] = True
                self.frames.append(Frame(None, None, mod))
                try:
                    return self.eval(v, State({}, {}, TRUE, {}))
                finally:
                    self.frames.pop()
                    self._gl.pop((mod.rel, name), None)
            return sym(mod.dotted + '.' + name)
        return sym(name)

    def e_Attribute(self, e, st):
        b = self.eval(e.value, st)
        return self.getattr(b, e.attr, st)

    def getattr(self, b, name, st):
        if b.op == 'sym' and self.is_ext(b.args[0]):
            return sym(canon_ext(b.args[0] + '.' + name))
        if b.op == 'mod':
            m = self.repo.modules[b.args[0]]
            return self.global_name(m, name)
        if name == 'size':
            return self.size(b)
        if name == '_ndarray':
            return b
        if name == 'ndim' and b.op != 'cls':
            return self.size(self.getattr(b, 'shape', st))
        if name == 'T' and b.op != 'cls':
            return T('call', 'numpy.transpose', (b,), ())
        ca = self.new_class_attr(b, name, st)
        if ca is not None:
            return ca
        if b.op == 'cls':
            return T('attr', b, name)
        # inline trivial properties that did not exist in the reference tree
        c = self.typeof(b)
        if c is not None:
            f = self.repo.find_method(c, name)
            if f is None and self.specs is not None and self.frames[-1].mod.rel.startswith('spec:'):
                f = self.specs.ghost_method(c, name)
            if f is not None and not f.deco() and b.op != 'cls' and (b, self.canon(name)) not in st.heap and self.quiet < 4:
                # a bound method used as a value
                ps = ['a%d' % i for i in range(len(f.params()) - 1)]
                n = len(f.node.args.defaults)
                k = (len(ps) - n if n else len(ps))
                lam = ast.parse('lambda %s: __recv__.%s(%s)' % (', '.join(ps[:k]), name, ', '.join(ps[:k])), mode='eval').body
                s2 = State({'__recv__': b}, st.heap, st.pc, st.havoc)
                return self.mk_closure(lam, s2)
            if f is not None and 'property' in f.deco() and (b, self.canon(name)) not in st.heap and not self.is_atomic(f):
                return self.inline_call(f, b, [], {}, st, None)
            if f is not None and 'property' in f.deco() and (b, self.canon(name)) not in st.heap and ('%s:%s' % (c.name, name)) in BACKED:
                # a name for the field behind it
                return self.load(b, BACKED['%s:%s' % (c.name, name)], st)
        return self.load(b, name, st)

    def new_class_attr(self, b, name, st):
        c = self.repo.classes.get(b.args[0]) if b.op == 'cls' else self.typeof(b)
        if c is None or (b, self.canon(name)) in st.heap:
            return None
        for k in self.repo.mro(c):
            if name in k.attrs:
                if '%s:%s.%s' % (k.mod.rel, k.name, name) in baseline_names() or self._gl.get((k.mod.rel, name)):
                    return None
                self._gl[(k.mod.rel, name)] = True
                self.frames.append(Frame(None, None, k.mod))
                try:
                    return self.eval(k.attrs[name], State({}, {}, TRUE, {}))
                finally:
                    self.frames.pop()
                    self._gl.pop((k.mod.rel, name), None)
        return None

    def is_ext(self, dotted):
        return dotted.split('.')[0] in EXT_ROOTS

    def size(self, b):
        if b.op == 'where':
            return T('count', b.args[0])
        if b.op == 'ite':
            return ite(b.args[0], self.size(b.args[1]), self.size(b.args[2]))
        if b.op in ('list', 'tuple'):
            return num(len(b.args))
        if b.op == 'idx' and b.args[1].op == 'where':
            return T('count', b.args[1].args[0])
        if b.op in ('copy', 'cast'):
            return self.size(b.args[0])
        if b.op == 'upd':
            return self.size(b.args[0])
        if b.op == 'idx' and b.args[1].op == 'slice' and b.args[1].args[2] is NONE:
            lo, hi = b.args[1].args[:2]
            if (lo is NONE or lo.op == 'num' and lo.args[0] >= 0) and (hi is NONE or hi.op == 'num' and hi.args[0] < 0):
                return add(self.size(b.args[0]), neg(lo) if lo is not NONE else ZERO, hi if hi is not NONE else ZERO)
        if b.op == 'alloc' and b.args[0] in ('numpy.zeros', 'numpy.ones', 'numpy.full', 'numpy.empty') and b.args[1] and \
                b.args[1][0].op in ('size', 'count', 'num', 'sym', 'sum', 'prod'):
            return b.args[1][0]
        if b.op in ('call', 'rand') and isinstance(b.args[0], str) and b.args[0].startswith('numpy.random.'):
            n = [v for k, v in b.args[2] if k == 'size'] if len(b.args) > 2 else []
            if n and n[0].op in ('size', 'count', 'num', 'sym', 'sum', 'prod'):
                return n[0]
        if b.op == 'call' and b.args[0] in ELEMENTWISE and len(b.args[1]) == 1:
            return self.size(b.args[1][0])
        if b.op in ('sum', 'prod'):
            # the parts that are not single numbers share one shape
            vs = [x for x in atoms1(b) if not self.is_scalar(x)]
            if len(vs) == 1:
                return self.size(vs[0])
        return T('size', b)

    def e_Subscript(self, e, st):
        b = self.eval(e.value, st)
        i = self.index(e.slice, st)
        if i.op == 'str':
            return self.load(b, i.args[0], st)
        return self.mk_idx(b, i)

    def index(self, s, st):
        if isinstance(s, ast.Slice):
            if s.lower is None and s.upper is None and s.step is None:
                return FULL
            f = lambda x: NONE if x is None else self.eval(x, st)
            lo, hi, step = f(s.lower), f(s.upper), f(s.step)
            if lo is ZERO:
                lo = NONE
            if lo is NONE and hi is NONE and step is NONE:
                return FULL
            return T('slice', lo, hi, step)
        if isinstance(s, ast.Tuple):
            parts = [self.index(x, st) for x in s.elts]
            while parts and parts[-1] is FULL:
                parts.pop()
            if not parts:
                return FULL
            parts = [self._ind(p) for p in parts]
            if len(parts) == 1:
                return parts[0]
            return T('tuple', *parts)
        return self._ind(self.eval(s, st))

    @staticmethod
    def _ind(i):
        if i.op == 'tuple' and len(i.args) == 1:
            i = i.args[0]
        if is_bool(i) and i.op != 'bool':
            return T('where', i)
        if i.op == 'call' and i.args[0] == 'slice':
            a = list(i.args[1]) + [NONE] * 3
            if len(i.args[1]) == 1:
                return T('slice', NONE, a[0], NONE)
            lo = NONE if a[0] is ZERO else a[0]
            return T('slice', lo, a[1], a[2])
        return i

    def is_scalar(self, t):
        if t.op in ('num', 'str', 'none', 'bool', 'it', 'size', 'count'):
            return True
        if t.op == 'sym':
            return self.is_ext(t.args[0])
        if t.op in ('attr', 'attrv'):
            b = t.args[0]
            if b.op in ('attr', 'attrv') and b.args[1] == 'config':
                return True
            c = self.typeof(b)
            if c is not None and c.name == 'Cluster' and t.args[1] in CLUSTER_SCALARS:
                return True
            return t.args[1] in ('r0', 'beta', 'limlum', 'rmask_0', 'lstar', 'cval')
        if t.op == 'call' and t.args[0] in ELEMWISE + ('numpy.min', 'numpy.max', 'numpy.sum', 'numpy.median', 'numpy.mean'):
            if t.args[0] in ELEMWISE:
                return all(self.is_scalar(x) for x in t.args[1])
            return True
        if t.op in ('sum', 'prod', 'pow', 'min', 'max'):
            return all(self.is_scalar(x) for x in atoms1(t))
        return False

    def mk_idx(self, b, i):
        i = self._ind(i)
        if i is FULL:
            return b
        if i.op == 'tuple' and b.op == 'idx' and self.frames and self.frames[-1].mod is not None and self.frames[-1].mod.rel.endswith('native_c.py'):
            # an element of a view
            return self.mk_idx(b.args[0], T('tuple', *((b.args[1].args if b.args[1].op == 'tuple' else (b.args[1],)) + i.args)))
        if b.op == 'idx' and b.args[1].op == 'slice' and b.args[1].args[2] is NONE and (i.op == 'it' or i.op == 'num' and i.args[0] >= 0):
            lo, hi = b.args[1].args[:2]
            if (lo is NONE or lo.op == 'num' and lo.args[0] >= 0) and (hi is NONE or hi.op == 'num' and hi.args[0] < 0) and b.args[0].op != 'str':
                return self.mk_idx(b.args[0], add(i, lo) if lo is not NONE else i)
        if i.op == 'it':
            if i.args[0] is self.size(b) and not is_bool(b) and b.op not in ('sum', 'prod', 'upd'):
                e = T('elem', b, i.args[1])
                c = self.typeof(b)
                if c is not None and c.name == 'ClusterCatalog':
                    self.types[e] = self.repo.classes.get('Cluster')
                return e
            if b.op in ('attr', 'attrv') and self.size(b.args[0]) is i.args[0]:
                return T('attr', self.mk_idx(b.args[0], i), b.args[1])
        if b.op in ('tuple', 'list') and i.op == 'num' and i.args[0].denominator == 1:
            n = int(i.args[0])
            if -len(b.args) <= n < len(b.args):
                return b.args[n]
        if b.op == 'dict' and b.args and len(b.args) <= 8 and all(x.op == 'tuple' and len(x.args) == 2 and x.args[0].op in tm.FLAT for x in b.args):
            r = T('idx', b, i)
            for x in reversed(b.args):
                r = ite(eq(i, x.args[0]), x.args[1], r)
            return r
        if b.op == 'ite' and self.is_scalar(b.args[0]):
            return ite(b.args[0], self.mk_idx(b.args[1], i), self.mk_idx(b.args[2], i))
        if b.op == 'upd' and b.args[1] is i:
            return b.args[2]
        if i.op in ('where', 'idx', 'attr', 'it', 'num', 'sym', 'call', 'slice', 'attrv', 'elem'):
            if b.op in ('sum', 'prod', 'lt0', 'le0', 'eq0', 'ne0', 'and', 'or', 'not', 'pow', 'min', 'max') or \
               (b.op == 'call' and b.args[0] in ELEMWISE):
                return self.push_idx(b, i)
        return T('idx', b, i)

    def push_idx(self, b, i):
        def go(x):
            if not isinstance(x, Term):
                return x
            if self.is_scalar(x):
                return x
            if x.op in ('sum', 'prod', 'lt0', 'le0', 'eq0', 'ne0', 'and', 'or', 'not', 'pow', 'min', 'max'):
                return tm.rebuild(x, go)
            if x.op == 'call' and x.args[0] in ELEMWISE:
                return T('call', x.args[0], tuple(go(y) for y in x.args[1]), x.args[2])
            return self.mk_idx(x, i) if x.op in ('upd', 'ite') else T('idx', x, i)
        return go(b)

    def e_BinOp(self, e, st):
        a = self.eval(e.left, st)
        if isinstance(e.op, ast.Mod) and (a.op in ('str', 'fmt')):
            return self.percent(a, self.eval(e.right, st))
        return self.binop(e.op, a, self.eval(e.right, st))

    @staticmethod
    def placed(parts, spec, v):
        if spec == 's':
            parts.extend(v.args if v.op == 'fmt' else [v])
        else:
            parts.append(T('fa', spec, v))

    def percent(self, a, r):
        import re
        vals = list(r.args) if r.op == 'tuple' else [r]
        parts = []
        for p in (a.args if a.op == 'fmt' else (a,)):
            if p.op != 'str':
                parts.append(p)
                continue
            pos = 0
            txt = p.args[0]
            for mt in re.finditer(r'%(?:%|[-+0 #]*\d*(?:\.\d+)?[a-zA-Z])', txt):
                parts.append(T('str', txt[pos:mt.start()]))
                pos = mt.end()
                if mt.group() == '%%':
                    parts.append(T('str', '%'))
                elif vals:
                    v = vals.pop(0)
                    spec = mt.group()[1:]
                    self.placed(parts, spec, v)
            parts.append(T('str', txt[pos:]))
        return fmt(parts)

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(T('str', v.value))
            else:
                x = self.eval(v.value, st)
                spec = ''
                if v.format_spec is not None:
                    spec = ''.join(c.value for c in v.format_spec.values if isinstance(c, ast.Constant))
                self.placed(parts, spec or 's', x)
        return fmt(parts)

    def binop(self, op, a, b):
        if isinstance(op, ast.Add):
            if seq_like(a):
                return mk_extend(a, b)
            if a.op == 'tuple' and b.op == 'tuple':
                return T('tuple', *(a.args + b.args))
            return add(a, b)
        if isinstance(op, ast.Sub):
            return sub(a, b)
        if isinstance(op, ast.Mult):
            if a.op in ('list', 'tuple', 'str') or b.op in ('list', 'tuple', 'str'):
                return T('call', 'repeat', (a, b), ())
            return mul(a, b)
        if isinstance(op, ast.Div):
            return div(a, b)
        if isinstance(op, ast.Pow):
            return power(a, b)
        if isinstance(op, ast.BitAnd):
            return and_(a, b)
        if isinstance(op, ast.BitOr):
            return or_(a, b)
        return T('call', type(op).__name__, (a, b), ())

    def e_UnaryOp(self, e, st):
        v = self.eval(e.operand, st)
        if isinstance(e.op, ast.USub):
            return neg(v)
        if isinstance(e.op, (ast.Not, ast.Invert)):
            return not_(v)
        return v

    def e_BoolOp(self, e, st):
        conj = isinstance(e.op, ast.And)
        vs = [self.eval(e.values[0], st)]
        for v in e.values[1:]:
            if any(isinstance(x, ast.Call) for x in ast.walk(v)):
                # evaluated only when the operands before it leave the result open
                c = and_(*[truth(x) if conj else not_(truth(x)) for x in vs])
                vs.append(self.eval_if(c, v, st))
            else:
                vs.append(self.eval(v, st))
        return and_(*vs) if conj else or_(*vs)

    def eval_if(self, c, node, st):
        do = node if callable(node) else lambda a: self.eval(node, a)
        a = st.copy()
        a.pc = and_(st.pc, c)
        if a.pc is FALSE:
            return do(a)
        pc = st.pc
        v = do(a)
        m = self.merge2(c, a, st, pc)
        m.pc = pc
        st.adopt(m)
        return v

    def e_Compare(self, e, st):
        l = self.eval(e.left, st)
        out = []
        for op, r in zip(e.ops, e.comparators):
            r = self.eval(r, st)
            if isinstance(op, ast.Lt):
                out.append(lt(l, r))
            elif isinstance(op, ast.LtE):
                out.append(le(l, r))
            elif isinstance(op, ast.Gt):
                out.append(lt(r, l))
            elif isinstance(op, ast.GtE):
                out.append(le(r, l))
            elif isinstance(op, (ast.Eq, ast.Is, ast.NotEq, ast.IsNot)):
                if l.op == 'call' and l.args[0] == 'type' and len(l.args[1]) == 1 and r.op == 'sym' and r.args[0] in ('list', 'tuple', 'str', 'dict'):
                    c = T('isinst', l.args[1][0], r)
                else:
                    c = eq(l, r)
                out.append(c if isinstance(op, (ast.Eq, ast.Is)) else not_(c))
            elif isinstance(op, ast.In):
                out.append(self.member(l, r))
            else:
                out.append(not_(self.member(l, r)))
            l = r
        return and_(*out)

    def e_IfExp(self, e, st):
        c = truth(self.eval(e.test, st))
        call = lambda n: any(isinstance(x, ast.Call) for x in ast.walk(n))
        x = self.eval_if(c, e.body, st) if call(e.body) else self.eval(e.body, st)
        y = self.eval_if(not_(c), e.orelse, st) if call(e.orelse) else self.eval(e.orelse, st)
        return ite(c, x, y)

    def e_Tuple(self, e, st):
        return T('tuple', *[self.eval(x, st) for x in e.elts])

    def e_List(self, e, st):
        return T('list', *[self.eval(x, st) for x in e.elts])

    def e_Set(self, e, st):
        return T('set', *[self.eval(x, st) for x in e.elts])

    def e_Dict(self, e, st):
        return T('dict', *[T('tuple', self.eval(k, st) if k is not None else NONE, self.eval(v, st))
                           for k, v in zip(e.keys, e.values)])

    def e_Starred(self, e, st):
        return T('star', self.eval(e.value, st))

    def e_Lambda(self, e, st):
        return self.mk_closure(e, st)

    def _comp(self, e, st, kind):
        s = st.copy()
        if kind == 'list' and len(e.generators) == 1 and not e.generators[0].ifs:
            items = self.items(self.eval(e.generators[0].iter, s))
            if items is not None and all(g is TRUE for g, x in items):
                out = []
                for g, x in items:
                    self.assign(e.generators[0].target, x, s, e)
                    out.append(self.eval(e.elt, s))
                return T('list', *out)
        its = []
        npush = 0
        for g in e.generators:
            it = self.eval(g.iter, s)
            key = self.iter_key(it)
            self.loops.append((0, 'for', key, e.lineno, None))
            npush += 1
            self.bind_iter(g.target, it, s, e, None)
            conds = [truth(self.eval(c, s)) for c in g.ifs]
            its.append(T('gen', key, and_(*conds) if conds else TRUE))
        if kind == 'dict':
            el = T('tuple', self.eval(e.key, s), self.eval(e.value, s))
        else:
            el = self.eval(e.elt, s)
        del self.loops[len(self.loops) - npush:]
        return T('comp', kind, el, *its)

    def e_ListComp(self, e, st):
        return self._comp(e, st, 'list')

    def e_GeneratorExp(self, e, st):
        return self._comp(e, st, 'list')

    def e_SetComp(self, e, st):
        return self._comp(e, st, 'set')

    def e_DictComp(self, e, st):
        return self._comp(e, st, 'dict')

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.assign(e.target, v, st, e)
        return v

    @staticmethod
    def member(l, r):
        while r.op == 'call' and r.args[0] in ('list', 'tuple', 'set') and len(r.args[1]) == 1:
            r = r.args[1][0]
        if r.op == 'call' and isinstance(r.args[0], Term) and r.args[0].op == 'meth' and not r.args[1] and not r.args[2]:
            m = r.args[0].args[1]
            if m == 'keys' or m in ('strip', 'rstrip', 'lstrip') and l.op == 'str' and l.args[0].strip() == l.args[0]:
                return Interp.member(l, r.args[0].args[0])
        if r.op in ('list', 'tuple', 'set') and r.args and len(r.args) <= 8 and all(x.op in tm.FLAT for x in r.args):
            return or_(*[eq(l, x) for x in r.args])
        if r.op == 'dict' and r.args and len(r.args) <= 8 and all(x.op == 'tuple' and len(x.args) == 2 and x.args[0].op in tm.FLAT for x in r.args):
            return or_(*[eq(l, x.args[0]) for x in r.args])
        if r.op == 'where':
            return not_(eq(T('count', eq(l, r)), ZERO))
        return T('in', l, r)

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st):
        args, kwargs = [], {}
        f = e.func
        recv = None
        if isinstance(f, ast.Attribute):
            # super(...).m(...)
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
                args, kwargs = self._args(e, st)
                return self.super_call(f.attr, args, kwargs, st, e)
            recv = self.eval(f.value, st)
            args, kwargs = self._args(e, st)
            if recv.op == 'sym' and self.is_ext(recv.args[0]):
                return self.ext_call(canon_ext(recv.args[0] + '.' + f.attr), args, kwargs, st, e)
            if recv.op == 'mod':
                t = self.global_name(self.repo.modules[recv.args[0]], f.attr)
                return self.call_term(t, args, kwargs, st, e)
            return self.method_call(recv, f.attr, args, kwargs, st, e)
        t = self.eval(f, st)
        args, kwargs = self._args(e, st)
        return self.call_term(t, args, kwargs, st, e)

    def _args(self, e, st):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v, tail = self.eval(a.value, st), []
                while v.op in ('append', 'extend') and len(v.args) == 2:
                    tail.insert(0, v.args[1] if v.op == 'append' else T('star', v.args[1]))
                    v = v.args[0]
                if v.op in ('tuple', 'list'):
                    args.extend(v.args)
                else:
                    args.append(T('star', v))
                args.extend(tail)
            else:
                args.append(self.eval(a, st))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                if v.op == 'dict':
                    for kv in v.args:
                        if kv.args[0].op == 'str':
                            kw[kv.args[0].args[0]] = kv.args[1]
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        return args, kw

    def call_term(self, t, args, kwargs, st, e):
        if t.op == 'fn':
            f = self.repo.modules[t.args[0]].functions[t.args[1]]
            return self.repo_call(f, None, args, kwargs, st, e)
        if t.op == 'ghost':
            return self.repo_call(self.specs.get(t.args[0], t.args[1]), None, args, kwargs, st, e)
        if t.op == 'cls':
            return self.construct(t.args[0], args, kwargs, st, e)
        if t.op == 'closure':
            return self.closure_call(t, args, kwargs, st, e)
        if t.op == 'sym':
            return self.ext_call(t.args[0], args, kwargs, st, e)
        if t.op == 'ite' and all(x.op in ('fn', 'cls', 'closure', 'ite', 'idx', 'ghost') for x in t.args[1:]):
            # one of several functions
            x = self.eval_if(t.args[0], lambda a: self.call_term(t.args[1], args, kwargs, a, e), st)
            y = self.eval_if(not_(t.args[0]), lambda a: self.call_term(t.args[2], args, kwargs, a, e), st)
            return ite(t.args[0], x, y)
        if t.op == 'attr' and t.args[0].op == 'cls':
            c = self.repo.classes.get(t.args[0].args[0])
            return self.method_call(t.args[0], t.args[1], args, kwargs, st, e)
        if t.op in ('attr', 'attrv') and isinstance(t.args[0], Term):
            # calling an attribute value, e.g. self.foo(...)
            return self.opaque_call(t, args, kwargs, st, e)
        return self.opaque_call(t, args, kwargs, st, e)

    def opaque_call(self, t, args, kwargs, st, e):
        r = T('call', t, tuple(args), tuple(sorted(kwargs.items())))
        self.emit('call', st, e, callee=t, args=tuple(args), kwargs=dict(kwargs), term=r)
        return r

    def closure_call(self, t, args, kwargs, st, e):
        node, env, fr = self.closures[t]
        if len(self.frames) > self.maxdepth:
            return self.opaque_call(t, args, kwargs, st, e)
        pseudo = Func.__new__(Func)
        pseudo.mod, pseudo.cls, pseudo.node = fr.mod, None, node
        pseudo.qual = (fr.func.qual if fr.func else '') + '.<closure>'
        pseudo.name = getattr(node, 'name', '<lambda>')
        b = self.bind(pseudo, None, args, kwargs, st)
        ns = State(dict(env), st.heap, st.pc, st.havoc)
        for k, v in st.env.items():
            if fr is self.frames[-1]:
                ns.env[k] = v
        ns.env.update(b)
        if isinstance(node, ast.Lambda):
            v = self.eval(node.body, ns)
            return v
        return self._exec_inline(pseudo, fr.cls, ns, st, e)

    def super_call(self, name, args, kwargs, st, e):
        fr = self.frames[-1]
        me = fr.func.cls
        if me is None:
            return self.opaque_call(T('super', name), args, kwargs, st, e)
        cls = fr.cls or me
        selfname = fr.func.params()[0]
        selft = st.env.get(selfname)
        mro = self.repo.mro(cls)
        if me in mro:
            mro = mro[mro.index(me) + 1:]
        for c in mro:
            if name in c.methods:
                f = c.methods[name]
                return self.repo_call(f, selft, args, kwargs, st, e, force=True)
        return self.opaque_call(T('super', name), args, kwargs, st, e)

    def method_call(self, recv, name, args, kwargs, st, e):
        if name == '__getitem__' and len(args) == 1 and not kwargs:
            i = self._ind(args[0])
            return self.load(recv, i.args[0], st) if i.op == 'str' else self.mk_idx(recv, i)
        # str / list / array methods
        r = self.builtin_method(recv, name, args, kwargs, st, e)
        if r is not None:
            return r
        if recv.op == 'cls':
            c = self.repo.classes[recv.args[0]]
            f = self.repo.find_method(c, name)
            if f is not None:
                d = f.deco()
                if 'classmethod' in d:
                    return self.repo_call(f, recv, args, kwargs, st, e)
                if 'staticmethod' in d:
                    return self.repo_call(f, None, args, kwargs, st, e)
                return self.repo_call(f, args[0], args[1:], kwargs, st, e) if args else self.opaque_call(T('attr', recv, name), args, kwargs, st, e)
            return self.opaque_call(T('attr', recv, name), args, kwargs, st, e)
        c = self.typeof(recv)
        if recv.op == 'ite' and c is None:
            pass
        if c is not None:
            f = self.repo.find_method(c, name)
            if f is None and self.specs is not None and self.frames[-1].mod.rel.startswith('spec:'):
                f = self.specs.ghost_method(c, name)
            if f is not None:
                if 'staticmethod' in f.deco():
                    return self.repo_call(f, None, args, kwargs, st, e)
                return self.repo_call(f, recv, args, kwargs, st, e)
        # unknown receiver: a method name that exists only in classes of the tree
        cands = self.repo.methods_named(name)
        new = [f for f in cands if not self.is_baseline(f)]
        if len(cands) == 1 and len(new) == 1:
            return self.repo_call(new[0], recv, args, kwargs, st, e)
        sigs = set(tuple(f.params()) for f in cands)
        if cands and len(sigs) == 1:
            return self.atomic_call(cands[0], recv, args, kwargs, st, e, anon=True)
        t = T('meth', recv, name)
        r = T('call', t, tuple(args), tuple(sorted(kwargs.items())))
        self.emit('call', st, e, callee=name, base=recv, args=tuple(args), kwargs=dict(kwargs), term=r)
        if cands:
            self.havoc_call(cands[0], [recv] + list(args) + list(kwargs.values()), st, r)
        return r

    def grow(self, recv, nv, st, e):
        v = e.func.value
        if isinstance(v, ast.Name):
            self.alias_up(v.id, recv, nv, st)
        self.replace_alias(recv, nv, st, v.id if isinstance(v, ast.Name) else None)
        if isinstance(v, ast.Attribute):
            st.heap[(self.eval(v.value, st), self.canon(v.attr))] = nv
        return NONE

    def mk_copy(self, x, kind, st, e):
        r = T('copy', x, kind, fresh_id())
        if not self.quiet:
            self.copies.append((x, kind, getattr(e, 'lineno', None)))
        for k in list(st.heap):
            if k[0] is x:
                st.heap[(r, k[1])] = self.inside(r, st.heap[k])
        return r

    @staticmethod
    def inside(c, v):
        """a field value as seen through a copy: its own object unless the copy is shallow"""
        if c.args[1] != 'shallow' and v.op in ('attr', 'attrv', 'alloc', 'upd', 'idx', 'call', 'new', 'list', 'append', 'extend', 'elem', 'sym'):
            return T('copy', v, c.args[1], c.args[2])
        return v

    def builtin_method(self, recv, name, args, kwargs, st, e):
        typed = self.typeof(recv)
        if typed is not None and self.repo.find_method(typed, name) is not None and recv.op != 'cls':
            if not (name == 'copy'):
                return None
            f = self.repo.find_method(typed, 'copy')
            if f is not None and typed.name in ('Cluster',):
                r = self.mk_copy(recv, 'repo', st, e)
                self.emit('call', st, e, callee='copy', base=recv, args=(), kwargs={}, term=r)
                return r
        if name == 'append' and recv.op not in ('cls',) and len(args) == 1 and not kwargs:
            self.emit('call', st, e, callee='append', base=recv, args=tuple(args), kwargs={},
                      term=T('call', T('meth', recv, 'append'), tuple(args), ()))
            return self.grow(recv, mk_append(recv, args[0]), st, e)
        if name == 'extend' and len(args) == 1 and not kwargs and seq_like(recv):
            return self.grow(recv, mk_extend(recv, args[0]), st, e)
        if name == 'copy' and not args:
            return self.mk_copy(recv, 'full', st, e)
        if name == 'astype':
            return T('cast', recv, args[0] if args else NONE)
        if name in NP_METHODS and recv.op != 'cls' and not (recv.op in ('str', 'fmt')):
            return self.ext_call('numpy.' + name, [recv] + args, kwargs, st, e)
        if name in ('upper', 'lower', 'strip', 'rstrip', 'lstrip', 'title') and recv.op == 'str' and not args and not kwargs:
            return T('str', getattr(recv.args[0], name)())
        if name == 'get' and args and args[0].op == 'str' and not kwargs and recv.op in ('sym', 'attr', 'attrv') and \
                not (recv.op == 'sym' and recv.args[0].startswith('**')):
            return ite(self.member(args[0], recv), self.load(recv, args[0].args[0], st), args[1] if len(args) > 1 else NONE)
        if name == 'setdefault' and len(args) == 2 and args[0].op == 'str' and not kwargs and recv.op in ('sym', 'attr', 'attrv'):
            old = self.load(recv, args[0].args[0], st)
            c = self.member(args[0], recv)
            s2 = st.copy()
            s2.pc = and_(st.pc, not_(c))
            self.store(recv, args[0].args[0], None, args[1], s2, e)
            st.adopt(self.merge2(not_(c), s2, st, st.pc))
            return ite(c, old, args[1])
        if name == 'format' and recv.op == 'str' and not any(k[:1] == '*' for k in kwargs) and not any(a.op == 'star' for a in args):
            import string
            parts, n = [], 0
            try:
                for lit, field, spec, conv in string.Formatter().parse(recv.args[0]):
                    parts.append(T('str', lit))
                    if field is None:
                        continue
                    if field == '':
                        field, n = str(n), n + 1
                    v = args[int(field)] if field.isdigit() else kwargs[field]
                    if conv or '{' in spec:
                        raise ValueError
                    self.placed(parts, spec or 's', v)
                return fmt(parts)
            except (ValueError, KeyError, IndexError):
                pass
        if name == 'format' and recv.op == 'str':
            return T('call', 'str.format', (recv,) + tuple(args), tuple(sorted(kwargs.items())))
        if name == 'fill' and len(args) == 1:
            self.store(recv, None, FULL, args[0], st, e)
            return NONE
        if name == 'pop' and recv.op == 'sym' and recv.args[0].startswith('**'):
            d = args[1] if len(args) > 1 else NONE
            return T('call', 'kwarg', (args[0], d), ())
        if name == 'get' and recv.op == 'sym' and recv.args[0].startswith('**'):
            d = args[1] if len(args) > 1 else NONE
            return T('call', 'kwarg', (args[0], d), ())
        return None

    def is_baseline(self, f):
        return '%s:%s' % (f.mod.rel, f.qual) in self.baseline

    def is_atomic(self, f):
        if f.qual in self.force_atomic:
            return True
        if f.qual in self.inline or f.name in self.inline:
            return False
        if self.inline_all:
            return False
        return self.is_baseline(f)

    def repo_call(self, f, recv, args, kwargs, st, e, force=False):
        if self.specs is not None and self.frames[-1].mod.rel.startswith('spec:') and not f.mod.rel.startswith('spec:') \
                and (f.qual in self.inline or f.name in self.inline) and self.is_baseline(f):
            f = self.specs.get(f.mod.rel, f.qual)
            force = True
        if any('*' == k[:1] for k in kwargs) or any(a.op == 'star' for a in args):
            if not force:
                return self.atomic_call(f, recv, args, kwargs, st, e)
        if (not force and self.is_atomic(f)) or len(self.frames) >= self.maxdepth or \
                sum(1 for fr in self.frames if fr.func is f) > 0:
            return self.atomic_call(f, recv, args, kwargs, st, e)
        return self.inline_call(f, recv, args, kwargs, st, e)

    def bind(self, f, recv, args, kwargs, st):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if recv is not None and names:
            env[names[0]] = recv
            names = names[1:]
        rest = list(args)
        for n in names:
            if rest and rest[0].op != 'star':
                env[n] = rest.pop(0)
        if a.vararg:
            env[a.vararg.arg] = T('tuple', *rest)
        kw = dict(kwargs)
        for x in names + [y.arg for y in a.kwonlyargs]:
            if x in kw:
                env[x] = kw.pop(x)
        if a.kwarg:
            env[a.kwarg.arg] = T('dict', *[T('tuple', T('str', k), v) for k, v in sorted(kw.items()) if k != '**'])
            if '**' in kw:
                env[a.kwarg.arg] = kw['**']
        # defaults
        allp = [x.arg for x in a.posonlyargs + a.args]
        for p, d in zip(allp[len(allp) - len(a.defaults):], a.defaults):
            if p not in env:
                env[p] = self.eval(d, State({}, {}, TRUE, {}))
        for p, d in zip([y.arg for y in a.kwonlyargs], a.kw_defaults):
            if p not in env and d is not None:
                env[p] = self.eval(d, State({}, {}, TRUE, {}))
        return env

    def inline_call(self, f, recv, args, kwargs, st, e):
        env = self.bind(f, recv, args, kwargs, st)
        ns = State(env, st.heap, st.pc, st.havoc)
        cls = None
        if recv is not None:
            cls = self.typeof(recv) or f.cls
            if recv not in self.types and recv.op != 'cls' and f.cls is not None and self.typeof(recv) is None:
                pass
        self.inlined.add(f.where)
        return self._exec_inline(f, cls, ns, st, e, recv)

    def _exec_inline(self, f, cls, ns, st, e=None, recv=None):
        fr = Frame(f, cls, f.mod)
        if isinstance(e, ast.Call):
            ps = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
            if recv is not None:
                ps = ps[1:]
            for p_, a_ in zip(ps, e.args):
                if isinstance(a_, ast.Name):
                    fr.alias[p_] = a_.id
            for k_ in e.keywords:
                if isinstance(k_.value, ast.Name) and k_.arg:
                    fr.alias[k_.arg] = k_.value.id
        self.frames.append(fr)
        self.nfun += 1
        entry = st.pc
        ns.heap = dict(ns.heap)
        ns.havoc = dict(ns.havoc)
        # the caller's variables ride along so that in-place changes of shared
        # objects made by the callee are seen by the caller
        for k, v in st.env.items():
            ns.env['$' + k] = v
        self.exec_block(f.node.body, ns)
        if ns.pc is not FALSE:
            fr.returns.append((ns.pc, NONE, ns.copy()))
        self.frames.pop()
        # returns inside an inlined callee are not returns of the entry
        m = self.merge_returns(fr.returns, entry, ns)
        st.heap, st.havoc, st.pc = m.heap, m.havoc, m.pc
        for k in list(st.env):
            if '$' + k in m.env:
                st.env[k] = m.env['$' + k]
        if len(fr.returns) > 1:
            st.pc = or_(*[r[0] for r in fr.returns])
        return m.env['$ret']

    def atomic_call(self, f, recv, args, kwargs, st, e, anon=False):
        if any(a.op == 'star' for a in args) or '**' in kwargs:
            r = T('call', T('fnq', f.name), tuple(([recv] if recv is not None else []) + list(args)), tuple(sorted(kwargs.items())))
            bound = dict(kwargs)
        else:
            bound = self.bind(f, recv, args, kwargs, st)
            p = f.params()
            if recv is not None and p and p[0] in bound:
                bound.pop(p[0])
            bound = dict((k, v) for k, v in bound.items())
            key = f.name
            r = T('call', T('meth', recv, key) if recv is not None else T('fnq', key), (),
                  tuple(sorted(bound.items())))
        ev = self.emit('call', st, e, callee=f.name, base=recv, args=(), kwargs=bound, term=r)
        if ev is not None:
            ev.snap = self.snapshot(f, ([recv] if recv is not None else []) + list(bound.values()), st)
        self.havoc_call(f, ([recv] if recv is not None else []) + list(bound.values()), st, r)
        if f.mod.rel.endswith('native_c.py') and isinstance(e, ast.Call) and recv is None:
            ps = f.params()
            for p_ in sorted(self.inplace_params(f)):
                i = ps.index(p_)
                if i >= len(e.args) or p_ not in bound:
                    continue
                nv = T('call', T('fnq', f.name + '@' + p_), (), tuple(sorted(bound.items())))
                tv, old = e.args[i], bound[p_]
                if isinstance(tv, ast.Name):
                    self.alias_up(tv.id, old, nv, st)
                    self.replace_alias(old, nv, st, tv.id)
                elif isinstance(tv, (ast.Subscript, ast.Attribute)):
                    self.assign(tv, nv, st, e)
        return r

    def inplace_params(self, f, seen=()):
        """parameters whose storage the function writes"""
        if f.where in self._inpl:
            return self._inpl[f.where]
        ps = set(f.params())
        out = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in ps:
                out.add(n.value.id)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and f.where not in seen:
                g = self.repo.resolve_name(f.mod, n.func.id)
                if isinstance(g, Func) and g.cls is None:
                    gi = self.inplace_params(g, seen + (f.where,))
                    for q, a in zip(g.params(), n.args):
                        if q in gi and isinstance(a, ast.Name) and a.id in ps:
                            out.add(a.id)
        if not seen:
            self._inpl[f.where] = out
        return out

    def construct(self, cname, args, kwargs, st, e):
        c = self.repo.classes[cname]
        init = self.repo.find_method(c, '__init__')
        uid = fresh_id()
        if init is not None:
            b = self.bind(init, T('none'), args, kwargs, st)
            b.pop(init.params()[0], None)
            kws = tuple(sorted(b.items()))
        else:
            kws = tuple(sorted(kwargs.items()))
        r = T('new', cname, uid, kws)
        ev = self.emit('call', st, e, callee=cname, base=None, args=tuple(args), kwargs=dict(kws), term=r)
        if ev is not None and init is not None:
            ev.snap = self.snapshot(init, [v for k, v in kws], st)
        if cname in self.init and init is not None and len(self.frames) < self.maxdepth:
            self.types[r] = c
            self.inline_call(init, r, args, kwargs, st, e)
        return r

    # ------------------------------------------------------------ state an opaque repo call finds
    def snapshot(self, f, objs, st):
        """fields of the handed-over objects that were written before this call and that the callee reads"""
        names = self.readset(f)
        seen, todo = set(), [o for o in objs if isinstance(o, Term)]
        while todo:
            o = todo.pop()
            if o in seen or o.op in ('num', 'str', 'none', 'bool'):
                continue
            seen.add(o)
            if o.op == 'new':
                todo += [v for k, v in o.args[2] if isinstance(v, Term)]
        if not seen:
            return None
        out = {}
        for (b, a), v in st.heap.items():
            if a not in names:
                continue
            x = b
            while x is not None:
                if x in seen:
                    out[(b, a)] = v
                    break
                x = x.args[0] if x.op in ('attr', 'attrv', 'idx', 'elem', 'new') and isinstance(x.args[0], Term) else None
        for n in st.havoc:
            if n in names:
                for o in seen:
                    v = self.version(st.havoc[n], o) if self.typeof(o) is not None else None
                    if v is not None and (o, n) not in st.heap:
                        out[(T('last-change', o), n)] = v
        return out or None

    def readset(self, f, seen=None):
        memo = self.repo.__dict__.setdefault('_reads', {})
        if seen is None and f.where in memo:
            return memo[f.where]
        top = seen is None
        seen = seen if seen is not None else set()
        out = set()
        if f.where in seen:
            return out
        seen.add(f.where)
        made = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name):
                t = n.targets[0]
                nm = t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else None
                if nm and n.value.func.id in self.repo.classes:
                    made[nm] = self.repo.classes[n.value.func.id]
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute):
                if isinstance(n.ctx, ast.Load):
                    out.add(self.canon(n.attr))
                gs = self.repo.methods_named(n.attr)
                if gs:
                    v = n.value
                    vn = v.id if isinstance(v, ast.Name) else v.attr if isinstance(v, ast.Attribute) else None
                    if vn == 'self' and f.cls is not None:
                        g = self.repo.find_method(f.cls, n.attr)
                        gs = ([g] if g is not None else []) + [h for h in gs if h is not g and f.cls in self.repo.mro(h.cls)]
                    elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and f.cls is not None:
                        gs = [h for h in gs if h.cls in self.repo.mro(f.cls) and h is not f]
                    elif vn in self.repo.classes:
                        g = self.repo.find_method(self.repo.classes[vn], n.attr)
                        gs = [g] if g is not None else []
                    elif vn in made:
                        g = self.repo.find_method(made[vn], n.attr)
                        gs = [g] if g is not None else []
                    elif len(gs) > 3 or n.attr in ('run', 'fit', 'size', 'copy'):
                        gs = []
                    for g in gs:
                        out |= self.readset(g, seen)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute):
                out.add(self.canon(n.target.attr))
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                if n.id in self.repo.classes:
                    g = self.repo.find_method(self.repo.classes[n.id], '__init__')
                else:
                    g = self.repo.resolve_name(f.mod, n.id) if n.id in f.mod.functions else None
                if isinstance(g, Func):
                    out |= self.readset(g, seen)
        if top:
            if '_ndarray' in out:
                out |= self.columns()
            memo[f.where] = out
        return out

    def columns(self):
        """field names that are never plain attributes of an object: columns of a table"""
        if '_cols' not in self.repo.__dict__:
            own, names = set(), set()
            for m in self.repo.modules.values():
                for c in m.classes.values():
                    for g in c.methods.values():
                        for n in ast.walk(g.node):
                            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                                v = n.value
                                v = v.id if isinstance(v, ast.Name) else v.attr if isinstance(v, ast.Attribute) else ''
                                (own if v in ('config', 'conf', 'd') else set() if v == 'self' else names).add(self.canon(n.attr))
            self.repo._cols = set(n for n in names - own if not n.startswith('_'))
        return self.repo._cols

    # ------------------------------------------------------------ effects of opaque repo calls
    def havoc_call(self, f, objs, st, call=None):
        names = self.modset(f)
        if not names:
            return
        roots = frozenset(x for o in objs if isinstance(o, Term) for x in (o, root(o)) if x.op not in ('num', 'str', 'none', 'bool'))
        uid = T('after', f.name, strip(call) if call is not None else NONE)
        for n in sorted(names):
            for k in list(st.heap):
                if k[1] == n and (root(k[0]) in roots or k[0] in roots):
                    del st.heap[k]
            st.havoc[n] = st.havoc.get(n, ()) + ((roots, uid),)

    def modset(self, f, seen=None):
        if f.where in self._mods:
            return self._mods[f.where]
        top = seen is None
        seen = seen if seen is not None else set()
        if f.where in seen:
            return set()
        seen.add(f.where)
        out = set()
        for n in ast.walk(f.node):
            t = None
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store):
                while isinstance(n, ast.Subscript):
                    n = n.value
                if isinstance(n, ast.Attribute):
                    out.add(self.canon(n.attr))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                for g in self.repo.methods_named(n.func.attr)[:6]:
                    if n.func.attr not in ('run', '__init__', 'append', 'copy', 'size'):
                        out |= self.modset(g, seen)
        if top:
            self._mods[f.where] = out
        return out

    # ------------------------------------------------------------ external calls
    def ext_call(self, name, args, kwargs, st, e):
        r = self.ext_pure(name, args, kwargs, st, e)
        if r is not None:
            if name in ('os.path.isfile', 'os.path.isdir', 'os.path.exists', 'glob.glob', 'os.listdir'):
                self.emit('fsread', st, e, callee=name, args=tuple(args), term=r)
            return r
        r = T('call', name, tuple(args), tuple(sorted(kwargs.items())))
        if name.startswith('numpy.random.') or '.random' in name:
            r = T('call', name, tuple(args), tuple(sorted(kwargs.items())) + (('$', num(fresh_id())),))
        self.emit('call', st, e, callee=name, args=tuple(args), kwargs=dict(kwargs), term=r)
        return r

    def ext_pure(self, name, a, kw, st, e):
        n = len(a)
        if name in ('numpy.where', 'numpy.nonzero') and n == 1:
            return T('tuple', T('where', truth(a[0])))
        if name == 'numpy.where' and n == 3:
            return ite(a[0], a[1], a[2])
        if name == 'numpy.flatnonzero':
            return T('where', truth(a[0]))
        if name in ('numpy.sum', 'numpy.count_nonzero') and n == 1 and is_bool(a[0]) and not kw:
            return T('count', a[0])
        if name == 'numpy.sqrt' and n == 1:
            return power(a[0], num(Fraction(1, 2)))
        if name == 'numpy.square' and n == 1:
            return power(a[0], num(2))
        if name in ('numpy.power', 'pow') and n == 2:
            return power(a[0], a[1])
        if name in ('numpy.abs', 'numpy.absolute', 'numpy.fabs', 'abs') and n == 1:
            return T('call', 'abs', (a[0],), ())
        if name in ('numpy.radians', 'numpy.deg2rad') and n == 1:
            return mul(a[0], div(sym('numpy.pi'), num(180)))
        if name in ('numpy.degrees', 'numpy.rad2deg') and n == 1:
            return mul(a[0], div(num(180), sym('numpy.pi')))
        if name == 'numpy.clip':
            names = ['a', 'a_min', 'a_max']
            v = dict(zip(names, a))
            for k, x in kw.items():
                v[{'min': 'a_min', 'max': 'a_max'}.get(k, k)] = x
            if set(v) <= set(names):
                r = v['a']
                if v.get('a_min', NONE) is not NONE:
                    r = minmax('max', [r, v['a_min']])
                if v.get('a_max', NONE) is not NONE:
                    r = minmax('min', [r, v['a_max']])
                return r
        if name in ('numpy.minimum', 'numpy.maximum', 'min', 'max') and n == 2 and not kw:
            return minmax(name[-3:] if name.startswith('m') else name.split('.')[1][:3], a)
        if name == 'numpy.logical_and' and n == 2:
            return and_(*a)
        if name == 'numpy.logical_or' and n == 2:
            return or_(*a)
        if name in ('numpy.logical_not', 'numpy.invert') and n == 1:
            return not_(a[0])
        if name == 'bool' and n == 1:
            return truth(a[0])
        if name in ('any', 'all') and n == 1 and not kw and a[0].op == 'comp' and a[0].args[0] == 'list' and len(a[0].args) == 3:
            el, g = truth(a[0].args[1]), a[0].args[2]
            if is_bool(el):
                return some(g.args[0], and_(g.args[1], el)) if name == 'any' else not_(some(g.args[0], and_(g.args[1], not_(el))))
        if name == 'next' and n == 2 and not kw and a[0].op == 'comp' and a[0].args[0] == 'list' and len(a[0].args) == 3:
            el, g = a[0].args[1], a[0].args[2]
            k = len(self.loops)
            if not any(x.op in ('it', 'elem') and x.args[1] == k for x in subterms(el)):
                return ite(some(g.args[0], g.args[1]), el, a[1])
            return ite(some(g.args[0], g.args[1]), T('first', T('loopk', 'for', g.args[0], FALSE), g.args[1], el), a[1])
        if name in ('numpy.multiply', 'numpy.add', 'numpy.subtract', 'numpy.divide') and n == 2 and not kw:
            return {'multiply': mul, 'add': add, 'subtract': sub, 'divide': div}[name.split('.')[1]](*a)
        if name in ('numpy.greater', 'numpy.less', 'numpy.greater_equal', 'numpy.less_equal') and n == 2:
            if name.startswith('numpy.greater'):
                a = [a[1], a[0]]
            return lt(a[0], a[1], strict=not name.endswith('equal'))
        if name in ('numpy.equal',) and n == 2:
            return eq(a[0], a[1])
        if name in ('float', 'numpy.float64', 'numpy.float32', 'numpy.asarray', 'numpy.ascontiguousarray') and n == 1:
            return a[0]
        if name in ('len', 'numpy.size') and n == 1:
            return self.size(a[0])
        if name in ('copy.copy', 'copy.deepcopy', 'numpy.copy') and n == 1:
            kind = {'copy.copy': 'shallow', 'numpy.copy': 'full', 'copy.deepcopy': 'deep'}[name]
            return self.mk_copy(a[0], kind, st, e)
        if name in ('numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.full', 'numpy.zeros_like', 'numpy.ones_like',
                    'numpy.full_like', 'numpy.empty_like'):
            return T('alloc', name, tuple(a), tuple(sorted(kw.items())), fresh_id())
        if name == 'dict' and n == 0 and kw and '**' not in kw:
            return T('dict', *[T('tuple', T('str', k), v) for k, v in kw.items()])
        if name in ('dict', 'list', 'set', 'collections.OrderedDict') and n == 0 and not kw:
            return T('alloc', name, (), (), fresh_id())
        if name in ('list', 'tuple') and n == 1 and a[0].op in ('list', 'tuple'):
            return T(name, *a[0].args)
        if name == 'getattr' and n >= 2 and a[1].op == 'str':
            return self.getattr(a[0], a[1].args[0], st)
        if name == 'setattr' and n == 3 and a[1].op == 'str':
            self.store(a[0], a[1].args[0], None, a[2], st, e)
            return NONE
        if name == 'isinstance' and n == 2:
            if a[1].op in ('tuple', 'list'):
                return or_(*[T('isinst', a[0], x) for x in a[1].args])
            return T('isinst', a[0], a[1])
        if name in PURE_EXT or name.startswith('gsl.'):
            return T('call', name, tuple(a), tuple(sorted(kw.items())))
        return None


def atoms1(t):
    for x in t.args:
        if t.op == 'sum':
            for b, _ in x[1].args:
                yield b
        elif t.op == 'prod':
            yield x[0]
        elif isinstance(x, Term):
            yield x


# properties that only hand out a field (their own definitions are checked against this)
BACKED = {'Cluster:redshift': '_redshift', 'Cluster:mstar': '_mstar', 'Cluster:mpc_scale': '_mpc_scale'}

PURE_EXT = set(['numpy.' + x for x in (
    'log', 'log10', 'exp', 'isfinite', 'isnan', 'argmin', 'argmax', 'argsort', 'min', 'max', 'sum', 'mean', 'median',
    'std', 'cumsum', 'arange', 'linspace', 'unique', 'searchsorted', 'concatenate', 'append', 'array', 'isin', 'in1d',
    'atleast_1d', 'any', 'all', 'sin', 'cos', 'arcsin', 'arccos', 'arctan2', 'interp', 'diff', 'sort', 'tile', 'repeat',
    'ceil', 'floor', 'round', 'int32', 'int64', 'reshape', 'ravel', 'flatten', 'dot', 'outer', 'histogram', 'prod')] + [
    'range', 'enumerate', 'zip', 'int', 'str', 'sum', 'min', 'max', 'slice', 'sorted', 'reversed', 'type', 'hasattr',
    'os.path.join', 'os.path.isfile', 'os.path.dirname', 'os.path.abspath', 'os.path.basename', 'round', 'any', 'all'])

EXT_ROOTS = set(['numpy', 'scipy', 'esutil', 'fitsio', 'hpgeom', 'healsparse', 'os', 'copy', 'time', 'warnings', 'sys',
                 'glob', 're', 'yaml', 'logging', 'multiprocessing', 'functools', 'collections', 'types', 'tempfile',
                 'gc', 'shutil', 'subprocess', 'resource', 'healpy', 'astropy', 'matplotlib', 'argparse', 'redmapper',
                 'math', 'itertools', 'platform', 'pkg_resources', 'getpass', 'socket', 'string', 'ctypes', 'builtins',
                 'errno', 'gsl', 'contextlib', 'uuid', 'json', 'random', 'hashlib', 'signal', 'threading', 'concurrent'])

_CANON = {'scipy.np': 'numpy', 'numpy.abs': 'numpy.abs', 'os.path.exists': 'os.path.isfile'}


def canon_ext(d):
    return _CANON.get(d, d)


CLUSTER_SCALARS = set(['mstar', 'mpc_scale', 'redshift', 'lambda', 'lambda_e', 'r_lambda', 'scaleval', 'z_lambda',
                       'z_lambda_e', 'ra', 'dec', 'r0', 'beta', '_redshift', 'refmag', 'maskfrac', 'z', '_mstar', '_mpc_scale',
                       'r_mask', 'lim_limmag'])


# -------------------------------------------------------------------- stripping
_strip_memo = {}


def strip(t):
    """forget versions, copies, casts and allocation identity"""
    def fn(x):
        if x.op == 'attrv':
            return T('attr', x.args[0], x.args[1])
        if x.op in ('copy', 'cast'):
            return x.args[0]
        if x.op == 'alloc':
            return T('alloc', x.args[0], x.args[1], x.args[2], 0)
        if x.op == 'new':
            return T('new', x.args[0], 0, x.args[2])
        if x.op == 'exc':
            return T('exc', 0, x.args[1])
        return None
    return rewrite(t, fn, _strip_memo)
