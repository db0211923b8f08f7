"""Hash-consed canonical terms with algebraic normalisation.

A term denotes a value computed by the program.  Two expressions that the
normaliser proves equal are the *same object*.  Nothing is evaluated.
"""
from fractions import Fraction

_table = {}
_uid = [0]


class Term(object):
    __slots__ = ('op', 'args', 'uid')

    def __hash__(self):
        return self.uid

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)


def T(op, *args):
    key = (op,) + args
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.args = op, args
        _uid[0] += 1
        t.uid = _uid[0]
        _table[key] = t
    return t


def fresh_id():
    _uid[0] += 1
    return _uid[0]


# ---------------------------------------------------------------- constants
def num(x):
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return T('sym', 'numpy.inf' if x > 0 else 'float:%r' % x)
        return T('num', Fraction(repr(x)))
    return T('num', Fraction(x))


def const(v):
    if v is None:
        return NONE
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, (int, float)):
        return num(v)
    if isinstance(v, str):
        return T('str', v)
    return T('lit', repr(v))


NONE = T('none')
TRUE = T('bool', 'T')
FALSE = T('bool', 'F')
ZERO = num(0)
ONE = num(1)


def sym(n):
    return T('sym', n)


def is_num(t):
    return t.op == 'num'


# ---------------------------------------------------------------- arithmetic
# sum  : args = ((coef, mono), ...) sorted by mono.uid ; mono is 'prod'
# prod : args = ((base, exp Fraction), ...) sorted by base.uid
EMPTY = T('prod')


def to_poly(t):
    """-> dict mono -> coef"""
    if t.op == 'num':
        return {EMPTY: t.args[0]} if t.args[0] else {}
    if t.op == 'sum':
        return dict((m, c) for c, m in t.args)
    if t.op == 'prod':
        return {t: Fraction(1)}
    return {T('prod', (t, Fraction(1))): Fraction(1)}


def from_poly(d):
    d = dict((m, c) for m, c in d.items() if c)
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m is EMPTY:
            return num(c)
        if c == 1:
            if len(m.args) == 1 and m.args[0][1] == 1:
                return m.args[0][0]
            return m
    items = tuple((c, m) for m, c in sorted(d.items(), key=lambda x: x[0].uid))
    return T('sum', *items)


def mono(factors):
    f = {}
    for b, e in factors:
        f[b] = f.get(b, 0) + e
    it = [(b, e) for b, e in f.items() if e]
    it.sort(key=lambda x: x[0].uid)
    return T('prod', *it)


def add(*ts):
    d = {}
    for t in ts:
        if t.op in ('str', 'fmt', 'tuple', 'list'):
            return concat(ts)
        for m, c in to_poly(t).items():
            d[m] = d.get(m, 0) + c
    return from_poly(d)


def concat(ts):
    parts = []
    for t in ts:
        if t.op in ('fmt',):
            parts.extend(t.args)
        else:
            parts.append(t)
    if all(p.op in ('list',) for p in parts):
        return T('list', *[x for p in parts for x in p.args])
    if all(p.op in ('tuple',) for p in parts):
        return T('tuple', *[x for p in parts for x in p.args])
    return fmt(parts)


def fmt(parts):
    out = []
    for p in parts:
        if p.op == 'str' and out and out[-1].op == 'str':
            out[-1] = T('str', out[-1].args[0] + p.args[0])
        elif p.op == 'str' and p.args[0] == '':
            continue
        else:
            out.append(p)
    if len(out) == 1 and out[0].op == 'str':
        return out[0]
    return T('fmt', *out)


def mul(a, b):
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > 80:
        return from_poly({mono([(a, Fraction(1)), (b, Fraction(1))]): Fraction(1)})
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            # cancel (sum)^-k factors against nothing; plain merge
            m = mono(list(m1.args) + list(m2.args))
            d[m] = d.get(m, 0) + c1 * c2
    return from_poly(d)


def neg(a):
    return from_poly(dict((m, -c) for m, c in to_poly(a).items()))


def sub(a, b):
    return add(a, neg(b))


def content(t):
    """split term into (coef, common monomial, primitive term)"""
    d = to_poly(t)
    if len(d) == 1:
        (m, c), = d.items()
        return c, m, ONE
    common = None
    for m in d:
        fm = dict(m.args)
        if common is None:
            common = fm
        else:
            nc = {}
            for b in common:
                if b in fm:
                    e1, e2 = common[b], fm[b]
                    if (e1 > 0) == (e2 > 0):
                        nc[b] = e1 if abs(e1) < abs(e2) else e2
            common = nc
    lead = sorted(d.items(), key=lambda x: x[0].uid)[0][1]
    # the leading coefficient (sign included) is the numeric content
    nd = {}
    for m, c in d.items():
        nm = mono(list(m.args) + [(b, -e) for b, e in common.items()])
        nd[nm] = nd.get(nm, 0) + c / lead
    return lead, mono(list(common.items())), from_poly(nd)


def power(a, e):
    if e.op != 'num':
        if a.op == 'num' and a.args[0] == 10:
            return T('call', 'pow10', (e,), ())
        return T('pow', a, e)
    e = e.args[0]
    if e == 0:
        return ONE
    if e == 1:
        return a
    if a.op == 'num':
        v = a.args[0]
        if e.denominator == 1 and (v or e > 0) and abs(e) < 64:
            return num(v ** int(e))
        return T('prod', (a, e))
    if a.op == 'sum':
        if e.denominator == 1 and 0 < e <= 3:
            r = a
            for _ in range(int(e) - 1):
                r = mul(r, a)
            return r
        c, m, p = content(a)
        if e.denominator == 1:
            out = from_poly({mono([(b, x * e) for b, x in m.args]): Fraction(c) ** int(e)})
        else:
            if c < 0:
                c, p = -c, neg(p)
            out = from_poly({mono([(b, x * e) for b, x in m.args]): Fraction(1)})
            if c != 1:
                out = mul(out, T('prod', (num(c), e)))
        return mul(out, from_poly({mono([(p, e)]): Fraction(1)}))
    if a.op == 'prod':
        if e.denominator == 1 or all(True for _ in a.args):
            return from_poly({mono([(b, x * e) for b, x in a.args]): Fraction(1)})
    return from_poly({mono([(a, e)]): Fraction(1)})


def div(a, b):
    if b.op == 'num' and b.args[0] == 0:
        return T('call', 'div', (a, b), ())
    return mul(a, power(b, num(-1)))


# ---------------------------------------------------------------- booleans
BOOLOPS = ('lt0', 'le0', 'eq0', 'ne0', 'eq', 'ne', 'and', 'or', 'not', 'isnone',
           'bool', 'in', 'isinst', 'exc', 'truth')


def is_bool(t):
    return t.op in BOOLOPS or (t.op == 'call' and t.args[0] in (
        'numpy.isfinite', 'numpy.isnan', 'os.path.isfile', 'os.path.isdir', 'os.path.exists', 'hasattr', 'any'))


def nonneg_count(t):
    return t.op in ('size', 'count')


def _scale(p):
    """divide by |leading coef|, returning term with leading coef +-1"""
    d = to_poly(p)
    if not d:
        return p
    lead = abs(sorted(d.items(), key=lambda x: x[0].uid)[0][1])
    return from_poly(dict((m, c / lead) for m, c in d.items()))


def _count_form(p):
    """p == a*size + k  -> (size, a, k)"""
    d = to_poly(p)
    k = d.get(EMPTY, Fraction(0))
    rest = [(m, c) for m, c in d.items() if m is not EMPTY]
    if len(rest) == 1 and len(rest[0][0].args) == 1 and rest[0][0].args[0][1] == 1 and nonneg_count(rest[0][0].args[0][0]):
        return rest[0][0].args[0][0], rest[0][1], k
    return None


def _choices(t, budget):
    """t as a tree of selected numbers, or None"""
    budget[0] -= 1
    if budget[0] < 0:
        return None
    if t.op == 'num':
        return t
    if t.op == 'ite':
        x = _choices(t.args[1], budget)
        y = x and _choices(t.args[2], budget)
        return y and ('?', t.args[0], x, y)
    if t.op == 'sum' and len(t.args) <= 2:
        k, rest = ZERO, None
        for c, m in t.args:
            if m is EMPTY:
                k = num(c)
            elif rest is None and len(m.args) == 1 and m.args[0][1] == 1 and m.args[0][0].op == 'ite':
                rest = num(c), m.args[0][0]
            else:
                return None
        if rest is None:
            return None
        u = _choices(rest[1], budget)

        def shift(u):
            if isinstance(u, tuple):
                return (u[0], u[1], shift(u[2]), shift(u[3]))
            return add(mul(rest[0], u), k)
        return u and shift(u)
    return None


def _decide(p, f):
    """a comparison of a selected number with zero, as a condition on the selection"""
    if p.op not in ('ite', 'sum'):
        return None
    u = _choices(p, [24])
    if not isinstance(u, tuple):
        return None

    def go(u):
        return ite(u[1], go(u[2]), go(u[3])) if isinstance(u, tuple) else f(u)
    return go(u)


def lt(a, b, strict=True):
    if a.op == 'ite' and _flags(a, b) and b.op == 'num' and a.args[1].op == a.args[2].op == 'num':
        return ite(a.args[0], lt(a.args[1], b, strict), lt(a.args[2], b, strict))
    if b.op == 'ite' and _flags(a, b) and a.op == 'num' and b.args[1].op == b.args[2].op == 'num':
        return ite(b.args[0], lt(a, b.args[1], strict), lt(a, b.args[2], strict))
    p = sub(a, b)
    if p.op == 'num':
        v = p.args[0]
        return TRUE if (v < 0 or (v == 0 and not strict)) else FALSE
    r = _decide(p, lambda v: TRUE if v.args[0] < 0 or v.args[0] == 0 and not strict else FALSE)
    if r is not None:
        return r
    cf = _count_form(p)
    if cf:
        s, c, k = cf
        # c*s + k < 0  over nonnegative integers
        if c > 0:
            bound = -k / c           # s < bound
            lim = bound if strict else bound + Fraction(1, 10 ** 9)
            import math
            mx = math.ceil(lim) - 1  # s <= mx
            if mx < 0:
                return FALSE
            if mx == 0:
                return T('eq0', s)
            return T('le0', sub(s, num(mx)))
        else:
            bound = -k / c           # s > bound
            import math
            mn = math.floor(bound) + 1 if strict else math.ceil(bound)
            if mn <= 0:
                return TRUE
            if mn == 1:
                return T('ne0', s)
            return not_(T('le0', sub(s, num(mn - 1))))
    if p.op in ('sum', 'it', 'prod'):
        # the position in a loop is not negative and below the number of iterations
        for c, m in (p.args if p.op == 'sum' else ((1, p),)):
            if m.op == 'prod' and len(m.args) == 1 and m.args[0][1] == 1:
                m = m.args[0][0]
            if m.op == 'it' and abs(c) == 1:
                q = sub(p, m) if c == 1 else add(p, m)
                if q.op == 'num' and (c == -1 and (q.args[0] < 0 or q.args[0] == 0 and not strict)):
                    return TRUE
                if q.op == 'num' and (c == 1 and (q.args[0] > 0 or q.args[0] == 0 and strict)):
                    return FALSE
                q = add(q, m.args[0]) if c == 1 else sub(q, m.args[0])
                if q.op == 'num' and c == 1 and (q.args[0] < 1 or q.args[0] == 1 and not strict):
                    return TRUE
                if q.op == 'num' and c == -1 and (q.args[0] > -1 or q.args[0] == -1 and strict):
                    return FALSE
    p = _scale(p)
    return T('lt0' if strict else 'le0', p)


def le(a, b):
    return lt(a, b, strict=False)


FLAT = ('num', 'str', 'none', 'bool')


def _flags(a, b):
    """a selected constant compared with a constant"""
    if b.op == 'ite':
        a, b = b, a
    return a.op == 'ite' and b.op in FLAT and a.args[1].op in FLAT and a.args[2].op in FLAT


def eq(a, b):
    if a is b and a.op not in ('sym',):
        return TRUE
    if _flags(a, b):
        if b.op == 'ite':
            a, b = b, a
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    nonnum = ('str', 'none', 'bool', 'tuple', 'list', 'fmt', 'new', 'lit')
    if a.op in nonnum or b.op in nonnum:
        if a.op in ('str', 'none', 'bool') and b.op in ('str', 'none', 'bool') and a is not b:
            return FALSE
        if b is TRUE and is_bool(a):
            return a
        if a is TRUE and is_bool(b):
            return b
        if b is FALSE and is_bool(a):
            return not_(a)
        if a is NONE:
            return isnone(b)
        if b is NONE:
            return isnone(a)
        x, y = sorted((a, b), key=lambda t: t.uid)
        return T('eq', x, y)
    if a.op == 'num':
        a, b = b, a
    if a.op == 'it' and b is ONE and a.args[0].op == 'num' and a.args[0].args[0] == 2:
        return not_(eq(a, ZERO))    # one of two
    p = sub(a, b)
    if p.op == 'num':
        return TRUE if p.args[0] == 0 else FALSE
    r = _decide(p, lambda v: TRUE if v.args[0] == 0 else FALSE)
    if r is not None:
        return r
    d = to_poly(p)
    lead = sorted(d.items(), key=lambda x: x[0].uid)[0][1]
    p = from_poly(dict((m, c / lead) for m, c in d.items()))
    return T('eq0', p)


def isnone(a):
    if a is NONE:
        return TRUE
    if a.op in ('num', 'str', 'bool', 'new', 'alloc', 'tuple', 'list', 'fmt', 'where', 'sum', 'prod', 'dict'):
        return FALSE
    if a.op == 'ite':
        return ite(a.args[0], isnone(a.args[1]), isnone(a.args[2]))
    return T('isnone', a)


def truth(t):
    """truth value of a term used as a condition"""
    if is_bool(t):
        return t
    if t.op == 'num':
        return TRUE if t.args[0] else FALSE
    if t.op == 'str':
        return TRUE if t.args[0] else FALSE
    if t is NONE:
        return FALSE
    if t.op in ('size', 'count'):
        return T('ne0', t)
    if t.op == 'ite' and t.args[1].op in FLAT and t.args[2].op in FLAT:
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if t.op in ('list', 'tuple'):
        return TRUE if t.args else FALSE
    if t.op == 'ite':
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    return t


_not_memo = {}


def not_(t):
    r = _not_memo.get(t)
    if r is None:
        r = _not(t)
        _not_memo[t] = r
    return r


def _not(t):
    t = truth(t)
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    op = t.op
    if op == 'not':
        return t.args[0]
    if op == 'lt0':
        return T('le0', neg(t.args[0]))
    if op == 'le0':
        return T('lt0', neg(t.args[0]))
    if op == 'eq0':
        return T('ne0', *t.args)
    if op == 'ne0':
        return T('eq0', *t.args)
    if op == 'eq':
        return T('ne', *t.args)
    if op == 'ne':
        return T('eq', *t.args)
    if op == 'and':
        return or_(*[not_(x) for x in t.args])
    if op == 'or':
        return and_(*[not_(x) for x in t.args])
    if op == 'ite':
        return ite(t.args[0], not_(t.args[1]), not_(t.args[2]))
    return T('not', t)


def _flat(op, ts):
    out = set()
    for t in ts:
        t = truth(t)
        if t.op == op:
            out.update(t.args)
        else:
            out.add(t)
    return out


def and_(*ts):
    s = _flat('and', ts)
    s.discard(TRUE)
    if FALSE in s:
        return FALSE
    for t in s:
        if not_(t) in s:
            return FALSE
    # unit propagation into disjunctions
    changed = True
    n = 0
    while changed and n < 6:
        changed = False
        n += 1
        for t in sorted(s, key=lambda t: t.uid):
            if t.op == 'or':
                rest = []
                sat = False
                for x in t.args:
                    if x in s or (x.op == 'and' and all(y in s for y in x.args)):
                        sat = True
                        break
                    if not_(x) in s or (x.op == 'and' and any(not_(y) in s for y in x.args)):
                        continue
                    rest.append(x)
                if sat:
                    s.discard(t)
                    changed = True
                elif len(rest) < len(t.args):
                    s.discard(t)
                    r = or_(*rest)
                    if r is FALSE:
                        return FALSE
                    if r.op == 'and':
                        s.update(r.args)
                    elif r is not TRUE:
                        s.add(r)
                    changed = True
    if not s:
        return TRUE
    for t in s:
        if not_(t) in s:
            return FALSE
    if len(s) == 1:
        return s.pop()
    return T('and', *sorted(s, key=lambda t: t.uid))


def or_(*ts):
    s = _flat('or', ts)
    s.discard(FALSE)
    if TRUE in s:
        return TRUE
    for t in s:
        if not_simple(t) in s:
            return TRUE
    # absorption and resolution: or(and(X,c), and(X,not c)) -> X ; or(c, and(not c, X)) -> or(c, X)
    changed = True
    n = 0
    while changed and n < 8 and len(s) > 1:
        changed = False
        n += 1
        L = sorted(s, key=lambda t: t.uid)
        for a in L:
            A = set(a.args) if a.op == 'and' else {a}
            for b in L:
                if a is b or a not in s or b not in s:
                    continue
                B = set(b.args) if b.op == 'and' else {b}
                if A <= B:
                    s.discard(b)
                    changed = True
                    continue
                diff = [x for x in A if not_simple(x) in B]
                if len(diff) == 1:
                    x = diff[0]
                    if (A - {x}) == (B - {not_simple(x)}):
                        s.discard(a)
                        s.discard(b)
                        s.add(_mkand(A - {x}))
                        changed = True
                        break
                    if (A - {x}) <= (B - {not_simple(x)}):
                        s.discard(b)
                        s.add(_mkand(B - {not_simple(x)}))
                        changed = True
                        break
            if changed:
                break
        if TRUE in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return s.pop()
    return T('or', *sorted(s, key=lambda t: t.uid))


def _mkand(ss):
    ss = [x for x in ss if x is not TRUE]
    if not ss:
        return TRUE
    if len(ss) == 1:
        return ss[0]
    return T('and', *sorted(ss, key=lambda t: t.uid))


def not_simple(t):
    if t.op in ('and', 'or', 'ite'):
        return T('not', t)
    return not_(t)


def ite(c, a, b):
    c = truth(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op in ('not', 'ne0', 'ne'):
        return ite(not_(c), b, a)
    if c.op == 'le0' and not (is_bool(a) and is_bool(b)):
        return ite(not_(c), b, a)   # canonical polarity
    if is_bool(a) and is_bool(b):
        return _bite(c, a, b)
    a2 = a.args[1] if a.op == 'ite' and a.args[0] is c else a
    b2 = b.args[2] if b.op == 'ite' and b.args[0] is c else b
    if a2 is b2:
        return a2
    if c.op == 'eq0' and b2.op == 'upd' and b2.args[0] is a2 and a2.op == 'upd' and a2.args[2] is b2.args[2] and \
            _same_under(c.args[0], a2.args[1], b2.args[1]):
        return b2   # writing the same value to the same place again
    if c.op == 'eq0' and c.args[0].op == 'count' and b2.op == 'upd' and _nothing_to_write(c.args[0].args[0], a2, b2):
        return b2   # a selection without elements: nothing is written
    if c.op == 'eq0' and c.args[0].op == 'count' and a2.op == 'alloc' and a2.args[0] in ('numpy.zeros', 'numpy.ones') and is_bool(c.args[0].args[0]):
        m = c.args[0].args[0]
        if b2 is upd(a2, T('where', m), TRUE if a2.args[0] == 'numpy.zeros' else FALSE):
            return b2
    if a2.op == 'append' and b2.op == 'append' and a2.args[0] is b2.args[0] and len(a2.args) == len(b2.args) == 2:
        return T('append', a2.args[0], ite(c, a2.args[1], b2.args[1]))
    if a2.op == 'upd' and b2.op == 'upd' and a2.args[0] is b2.args[0]:
        i, j = a2.args[1], b2.args[1]
        if i is j:
            return upd(a2.args[0], i, ite(c, a2.args[2], b2.args[2]))
        if a2.args[2] is b2.args[2] and i.op == 'where' and j.op == 'where' and a2.args[2].op in FLAT:
            return upd(a2.args[0], T('where', ite(c, i.args[0], j.args[0])), a2.args[2])
    return _minmax(c, a2, b2) or T('ite', c, a2, b2)


def upd(b, i, v):
    """array b with v written to the elements i"""
    if v.op in ('tuple', 'list') and i.op == 'tuple' and 1 < len(v.args) < 6 and i.args[0].op == 'fullslice' and \
            all(x.op in ('it', 'num', 'size', 'sym') for x in i.args[1:]):
        for n, x in enumerate(v.args):        # a column given by its elements
            b = upd(b, T('tuple', num(n), *i.args[1:]), x)
        return b
    while b.op == 'upd' and b.args[1] is i:
        b = b.args[0]
    if b.op == 'alloc' and i.op == 'where' and v in (TRUE, FALSE, ONE, ZERO) and is_bool(i.args[0]):
        d = [x for k, x in b.args[2] if k == 'dtype'] if isinstance(b.args[2], tuple) else []
        if d and d[0].op == 'sym' and d[0].args[0] in ('bool', 'numpy.bool_', 'numpy.bool'):
            on = v in (TRUE, ONE)
            if b.args[0] == 'numpy.zeros' and on:
                return i.args[0]      # a mask of the elements selected by a condition is the condition
            if b.args[0] == 'numpy.ones' and not on:
                return not_(i.args[0])
    return T('upd', b, i, v)


def late(t, memo):
    """forms that are equal as values but not as storage; used for comparing only"""
    return rewrite(t, _late, memo)


def _late(x):
    if x.op == 'upd':
        b, i, v = x.args
        if i.op != 'where':
            return None
        c = i.args[0]
        if v in (TRUE, ONE, FALSE, ZERO) and is_bool(c):
            on = v in (TRUE, ONE)
            if b.op == 'alloc' and isinstance(b.args[2], tuple):
                d = [y for k, y in b.args[2] if k == 'dtype']
                if d and d[0].op == 'sym' and d[0].args[0] in ('bool', 'numpy.bool_', 'numpy.bool'):
                    if b.args[0] in ('numpy.zeros', 'numpy.zeros_like'):
                        b = FALSE
                    elif b.args[0] in ('numpy.ones', 'numpy.ones_like'):
                        b = TRUE
            if b is FALSE or b is TRUE or is_bool(b):
                return or_(b, c) if on else and_(b, not_(c))
        if c.op in ('lt0', 'le0'):
            w = rewrite(v, lambda y: y.args[0] if y.op == 'idx' and y.args[1] is i else None)
            if c is lt(w, b) or c is le(w, b):
                return minmax('min', [b, w])
            if c is lt(b, w) or c is le(b, w):
                return minmax('max', [b, w])
    if x.op == 'ite' and x.args[0].op in ('lt0', 'le0'):
        # a range of elements that reaches past the end selects them all
        c, a, b = x.args
        cut = [y for y in subterms(b) if y.op == 'idx' and y.args[1].op == 'slice' and y.args[1].args[0] is NONE and y.args[1].args[2] is NONE
               and (c is lt(T('size', y.args[0]), y.args[1].args[1]) or c is le(T('size', y.args[0]), y.args[1].args[1]))]
        if len(cut) == 1 and rewrite(b, lambda y: y.args[0] if y is cut[0] else None) is a:
            return b
    if x.op == 'call' and x.args[0] == 'numpy.array' and len(x.args[1]) == 1 and not x.args[2] and x.args[1][0].op in ('attr', 'attrv') and \
            x.args[1][0].args[0].op == 'sym':
        return x.args[1][0]
    if x.op == 'alloc' and x.args[0] == 'numpy.full' and not x.args[2] and len(x.args[1]) == 2:
        return add(T('alloc', 'numpy.zeros', (x.args[1][0],), (), 0), x.args[1][1])
    if x.op == 'alloc' and x.args[0] == 'numpy.zeros' and not x.args[2] and x.args[-1] != 0:
        return T('alloc', 'numpy.zeros', x.args[1], (), 0)
    if x.op == 'idx' and x.args[1].op == 'idx' and x.args[1].args[1].op not in ('str', 'tuple', 'slice') and x.args[1].args[0].op not in ('list', 'tuple', 'dict'):
        i, j = x.args[1].args       # a[i[j]] is a[i][j]
        return rewrite(T('idx', T('idx', x.args[0], i), j), _late)
    if x.op == 'call' and x.args[0] == 'numpy.unique' and len(x.args[1]) == 1 and not x.args[2]:
        b = x.args[1][0]
        if b.op == 'idx' and b.args[1].op == 'call' and b.args[1].args[0] == 'numpy.argsort' and not b.args[1].args[2] and b.args[1].args[1][0] is b.args[0]:
            return T('call', 'numpy.unique', (b.args[0],), ())      # sorted beforehand
    if x.op == 'upd' and x.args[1].op == 'where' and is_bool(x.args[1].args[0]):
        # a masked write with values that do not depend on how many are written
        b, i, v = x.args
        w = rewrite(v, lambda y: y.args[0] if y.op == 'idx' and y.args[1] is i else None)
        if _by_element(w, i) and (v.op == 'num' or v.op == 'sym' and v.args[0].startswith('numpy.') or w is not v):
            return ite(i.args[0], w, b)
    return None


def _by_element(v, i):
    if v is i:
        return False
    if v.op in ('sum', 'prod'):
        return all(_by_element(y, i) for x in v.args for y in x if isinstance(y, Term))
    if v.op == 'call':
        return v.args[0] in ELEMENTWISE and all(_by_element(y, i) for y in v.args[1])
    return v.op in ('num', 'attr', 'attrv', 'sym', 'idx') and not any(y is i for y in subterms(v))


def _nothing_to_write(m, a, b):
    """b is a with values written only to the elements selected by m, and no value needs an element to exist"""
    while b.op == 'upd' and b is not a:
        i, v = b.args[1], b.args[2]
        sel = lambda x: x.op == 'where' and x.args[0] is m or x.op == 'idx' and x.args[1].op == 'where' and x.args[1].args[0] is m
        if not (sel(i) or i.op == 'tuple' and any(sel(x) for x in i.args)):
            return False
        if _needs_element(v):
            return False
        b = b.args[0]
    return b is a


def _needs_element(v):
    if v.op == 'call':
        return v.args[0] not in ELEMENTWISE or any(_needs_element(x) for x in v.args[1])
    if v.op in ('meth', 'opaque', 'new'):
        return True
    if v.op == 'idx':
        return v.args[1].op == 'num'
    if v.op == 'sum' or v.op == 'prod':
        return any(_needs_element(y) for x in v.args for y in x if isinstance(y, Term))
    if v.op in ('attr', 'attrv', 'phi', 'mu', 'out', 'where'):
        return False
    return any(_needs_element(x) for x in v.args if isinstance(x, Term))


ELEMENTWISE = set(['numpy.log', 'numpy.log10', 'numpy.exp', 'abs', 'pow10', 'numpy.isfinite', 'numpy.sin', 'numpy.cos', 'numpy.arctan',
                   'numpy.sinh', 'numpy.arcsinh', 'scipy.special.erf', 'numpy.cosh', 'numpy.tan', 'numpy.round', 'numpy.floor'])


def _same_under(p, i, j):
    """are the two indices equal when p == 0"""
    if i is j:
        return True
    if i.op == 'tuple' and j.op == 'tuple' and len(i.args) == len(j.args):
        return all(_same_under(p, x, y) for x, y in zip(i.args, j.args))
    try:
        d = _scale(sub(i, j))
    except Exception:
        return False
    return d is p or neg(d) is p


def _bite(c, a, b):
    if a is TRUE:
        return or_(c, b)
    if a is FALSE:
        return and_(not_(c), b)
    if b is FALSE:
        return and_(c, a)
    if b is TRUE:
        return or_(not_(c), a)
    return or_(and_(c, a), and_(not_(c), b))


def _minmax(c, a, b):
    # x if x < y else y -> min ; with c = lt0(p): p ~ a-b => min(a,b); p ~ b-a => max(a,b)
    if c.op in ('lt0', 'le0'):
        try:
            p = c.args[0]
            d = _scale(sub(a, b))
            if d is p:
                return minmax('min', [a, b])
            if neg(d) is p:
                return minmax('max', [a, b])
        except Exception:
            return None
    return None


def minmax(op, ts):
    s = set()
    for t in ts:
        if t.op == op:
            s.update(t.args)
        else:
            s.add(t)
    nums = [t for t in s if t.op == 'num']
    if len(nums) > 1:
        keep = (min if op == 'min' else max)(nums, key=lambda t: t.args[0])
        s = set(x for x in s if x.op != 'num') | {keep}
    if len(s) == 1:
        return s.pop()
    return T(op, *sorted(s, key=lambda t: t.uid))


# ---------------------------------------------------------------- traversal
def subterms(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, Term):
            if x.uid in seen:
                continue
            seen.add(x.uid)
            yield x
            stack.extend(x.args)
        elif isinstance(x, tuple):
            stack.extend(x)


def rewrite(t, fn, memo=None):
    """bottom-up rebuild through the smart constructors; fn(term)->term or None"""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, Term):
            if x.uid in memo:
                return memo[x.uid]
            y = rebuild(x, go)
            z = fn(y)
            if z is not None:
                y = z
            memo[x.uid] = y
            return y
        if isinstance(x, tuple):
            return tuple(go(i) for i in x)
        return x
    return go(t)


def rebuild(x, go):
    op = x.op
    if op == 'sum':
        r = ZERO
        for c, m in x.args:
            r = add(r, mul(num(c), go(m)))
        return r
    if op == 'prod':
        r = ONE
        for b, e in x.args:
            r = mul(r, power(go(b), num(e)))
        return r
    a = [go(i) for i in x.args]
    if op == 'lt0':
        return lt(a[0], ZERO)
    if op == 'le0':
        return le(a[0], ZERO)
    if op == 'eq0':
        return eq(a[0], ZERO)
    if op == 'ne0':
        return not_(eq(a[0], ZERO))
    if op == 'eq':
        return eq(a[0], a[1])
    if op == 'ne':
        return not_(eq(a[0], a[1]))
    if op == 'and':
        return and_(*a)
    if op == 'or':
        return or_(*a)
    if op == 'not':
        return not_(a[0])
    if op == 'ite':
        return ite(*a)
    if op == 'upd':
        return upd(*a)
    if op in ('min', 'max'):
        return minmax(op, a)
    if op == 'isnone':
        return isnone(a[0])
    if op == 'pow':
        return power(a[0], a[1])
    if op == 'fmt':
        return fmt(a)
    return T(op, *a)


def show(t, depth=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, depth + 1) for x in t) + ')'
        return str(t)
    if depth > 14:
        return '...'
    op, a = t.op, t.args
    s = lambda x: show(x, depth + 1)
    if op == 'num':
        v = a[0]
        return str(v.numerator) if v.denominator == 1 else '%g' % float(v)
    if op == 'str':
        return repr(a[0])
    if op == 'none':
        return 'None'
    if op == 'bool':
        return 'True' if a[0] == 'T' else 'False'
    if op == 'sym':
        return a[0]
    if op == 'attr':
        return s(a[0]) + '.' + a[1]
    if op == 'attrv':
        return s(a[0]) + '.' + a[1] + "'"
    if op == 'idx':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if op == 'sum':
        out = []
        for c, m in a:
            ms = s(m) if m.args else ''
            out.append(('%s*%s' % (show(num(c)), ms) if ms else show(num(c))) if c != 1 or not ms else ms)
        return '(' + ' + '.join(out) + ')'
    if op == 'prod':
        return '*'.join(s(b) if e == 1 else '%s**%s' % (s(b), show(num(e))) for b, e in a) or '1'
    if op in ('lt0', 'le0', 'eq0', 'ne0'):
        return '(%s %s 0)' % (s(a[0]), {'lt0': '<', 'le0': '<=', 'eq0': '==', 'ne0': '!='}[op])
    if op in ('eq', 'ne'):
        return '(%s %s %s)' % (s(a[0]), '==' if op == 'eq' else '!=', s(a[1]))
    if op in ('and', 'or'):
        return '(' + (' %s ' % op).join(s(x) for x in a) + ')'
    if op == 'not':
        return 'not ' + s(a[0])
    if op == 'call':
        kw = ', '.join('%s=%s' % (k, s(v)) for k, v in a[2])
        ar = ', '.join(s(x) for x in a[1])
        return '%s(%s)' % (a[0] if isinstance(a[0], str) else s(a[0]), ', '.join(x for x in (ar, kw) if x))
    if op == 'fmt':
        return 'fmt(' + ' '.join(s(x) for x in a) + ')'
    return '%s(%s)' % (op, ', '.join(s(x) for x in a))
