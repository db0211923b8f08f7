"""C front end: translates the compiled extension sources to python syntax trees.

The subset of C used by numerical extension modules is parsed directly (no
compiler, nothing is run) and mapped on the value-flow engine's vocabulary:
pointers are arrays, out-parameters are stores, libm/gsl/numpy C-API calls are
their array-level meaning.  Whatever falls outside the subset makes the one
function unsupported, never the tree.
"""
import ast
import os
import re

TOK = re.compile(r'''
  (?P<num>0[xX][0-9a-fA-F]+[uUlL]*|(?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?[fFuUlL]*)
 |(?P<id>[A-Za-z_]\w*)
 |(?P<str>"(?:\\.|[^"\\])*")
 |(?P<chr>'(?:\\.|[^'\\])*')
 |(?P<op>->|\+\+|--|<<=|>>=|<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|%=|&=|\|=|\^=|<<|>>|\.\.\.|[-+*/%=<>!&|^~?:;,.(){}\[\]])
''', re.X)

QUAL = set('const static inline volatile register extern restrict __restrict __restrict__ signed unsigned'.split())
BASE = set('void char short int long float double size_t ssize_t npy_intp npy_int npy_long bool _Bool int32_t int64_t uint32_t uint64_t'.split())
FLOATS = set(['float', 'double', 'npy_float64', 'npy_double'])


class Unsupported(Exception):
    pass


class Tok(object):
    __slots__ = ('k', 'v', 'line', 'file')

    def __init__(self, k, v, line, file):
        self.k, self.v, self.line, self.file = k, v, line, file

    def __repr__(self):
        return '%s@%d' % (self.v, self.line)


def decomment(s):
    def f(m):
        t = m.group(0)
        if t.startswith('/'):
            return re.sub(r'[^\n]', ' ', t)
        return t
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'', f, s, flags=re.S)


def cond_value(c, defs):
    c = c.strip()
    m = re.match(r'PY_MAJOR_VERSION\s*(>=|>|==|<|<=)\s*(\d+)$', c)
    if m:
        return {'>=': 3 >= int(m.group(2)), '>': 3 > int(m.group(2)), '==': 3 == int(m.group(2)),
                '<': 3 < int(m.group(2)), '<=': 3 <= int(m.group(2))}[m.group(1)]
    m = re.match(r'(!?)\s*defined\s*\(?\s*(\w+)\s*\)?$', c)
    if m:
        return (m.group(2) in defs) != bool(m.group(1))
    if re.match(r'\d+$', c):
        return int(c) != 0
    return True


def lex(path, name, defs, funcdefs, text=None):
    if text is None:
        with open(path, errors='replace') as fh:
            text = fh.read()
    src = decomment(text)
    toks, stack = [], []
    lines = src.split('\n')
    i = 0
    while i < len(lines):
        ln, no = lines[i], i + 1
        i += 1
        st = ln.strip()
        if st.startswith('#'):
            while st.endswith('\\') and i < len(lines):
                st = st[:-1] + ' ' + lines[i].strip()
                i += 1
            d = st[1:].strip()
            live = all(x[0] for x in stack)
            m = re.match(r'(ifdef|ifndef|if|elif|else|endif|define|undef)\b(.*)$', d, re.S)
            if not m:
                continue
            k, rest = m.group(1), m.group(2).strip()
            if k in ('ifdef', 'ifndef', 'if'):
                v = cond_value(rest, defs) if k == 'if' else (((rest in defs) != (k == 'ifndef')))
                stack.append([v, v])
            elif k == 'elif' and stack:
                v = (not stack[-1][1]) and cond_value(rest, defs)
                stack[-1] = [v, stack[-1][1] or v]
            elif k == 'else' and stack:
                stack[-1] = [not stack[-1][1], True]
            elif k == 'endif' and stack:
                stack.pop()
            elif k == 'define' and live:
                m = re.match(r'(\w+)\(([^)]*)\)\s*(.*)$', rest, re.S)
                if m:
                    funcdefs[m.group(1)] = ([x.strip() for x in m.group(2).split(',') if x.strip()], scan(m.group(3), no, name))
                else:
                    m = re.match(r'(\w+)\s*(.*)$', rest, re.S)
                    if m:
                        defs[m.group(1)] = scan(m.group(2), no, name)
            continue
        if not all(x[0] for x in stack):
            continue
        toks += scan(ln, no, name)
    return toks


def scan(text, no, name):
    out, p = [], 0
    while p < len(text):
        if text[p].isspace() or text[p] == '\\':
            p += 1
            continue
        m = TOK.match(text, p)
        if not m:
            raise Unsupported('character %r' % text[p])
        out.append(Tok(m.lastgroup, m.group(0), no, name))
        p = m.end()
    return out


def expand(toks, defs, funcdefs, depth=0):
    """textual macro expansion of the extension's own macros"""
    if depth > 8:
        return toks
    out, i, hit = [], 0, False
    while i < len(toks):
        t = toks[i]
        if t.k == 'id' and t.v in funcdefs and i + 1 < len(toks) and toks[i + 1].v == '(':
            ps, body = funcdefs[t.v]
            args, cur, d, j = [], [], 0, i + 1
            while j < len(toks):
                v = toks[j].v
                if v in '([{' and toks[j].k == 'op':
                    d += 1
                    if d > 1:
                        cur.append(toks[j])
                elif v in ')]}' and toks[j].k == 'op':
                    d -= 1
                    if d == 0:
                        args.append(cur)
                        break
                    cur.append(toks[j])
                elif v == ',' and d == 1:
                    args.append(cur)
                    cur = []
                else:
                    cur.append(toks[j])
                j += 1
            env = dict(zip(ps, args))
            for b in body:
                if b.k == 'id' and b.v in env:
                    out += env[b.v]
                else:
                    out.append(Tok(b.k, b.v, t.line, t.file))
            i = j + 1
            hit = True
            continue
        out.append(t)
        i += 1
    return expand(out, defs, funcdefs, depth + 1) if hit else out


LIBM = {'fabs': 'abs', 'exp': 'exp', 'log': 'log', 'log10': 'log10', 'sin': 'sin', 'cos': 'cos', 'floor': 'floor', 'ceil': 'ceil',
        'finite': 'isfinite', 'isfinite': 'isfinite', 'isnan': 'isnan', 'sqrt': 'sqrt', 'fmin': 'minimum', 'fmax': 'maximum'}
SKIP = set(['free', 'Py_INCREF', 'Py_DECREF', 'Py_XDECREF', 'Py_XINCREF', 'printf', 'fprintf', 'fflush', 'import_array', 'Py_CLEAR'])
IDENT = set(['PyArray_DATA', 'PyArray_Return', 'PyArray_GETPTR1', 'PyArray_BYTES'])


class X(object):
    """typed expression"""
    __slots__ = ('n', 't', 'lv')

    def __init__(self, n, t='obj', lv=None):
        self.n, self.t, self.lv = n, t, lv


class FuncTranslator(object):
    def __init__(self, toks, unit, name):
        self.toks, self.i, self.u, self.name = toks, 0, unit, name
        self.types, self.boxed, self.pre = {}, set(), []
        self.views = {}
        self.line = 1
        self.ntmp = 0

    # -- tokens
    def peek(self, k=0):
        return self.toks[self.i + k] if self.i + k < len(self.toks) else Tok('eof', '', self.line, '')

    def next(self):
        t = self.peek()
        self.i += 1
        self.line = t.line or self.line
        return t

    def at(self, v):
        t = self.peek()
        return t.v == v and t.k != 'str'

    def take(self, v):
        if self.at(v):
            self.next()
            return True
        return False

    def need(self, v):
        if not self.take(v):
            raise Unsupported('%s: expected %s, found %s (line %d)' % (self.name, v, self.peek().v, self.peek().line))

    # -- AST helpers
    def N(self, cls, **kw):
        n = cls(**kw)
        n.lineno = n.end_lineno = self.line
        n.col_offset = n.end_col_offset = 0
        return n

    def nm(self, s):
        return self.N(ast.Name, id=s, ctx=ast.Load())

    def const(self, v):
        return self.N(ast.Constant, value=v)

    def attr(self, b, a):
        return self.N(ast.Attribute, value=b, attr=a, ctx=ast.Load())

    def sub(self, b, i):
        return self.N(ast.Subscript, value=b, slice=i, ctx=ast.Load())

    def call(self, f, args):
        if isinstance(f, str):
            p = f.split('.')
            e = self.nm(p[0])
            for a in p[1:]:
                e = self.attr(e, a)
            f = e
        return self.N(ast.Call, func=f, args=args, keywords=[])

    def sub2(self, b, ij):
        # an element of a matrix; of one matrix of a stack: three indices
        if isinstance(b, ast.Subscript):
            return self.sub(b.value, self.tup([b.slice] + ij))
        return self.sub(b, self.tup(ij))

    def full(self, b):
        return self.sub(b, self.N(ast.Slice, lower=None, upper=None, step=None))

    def tup(self, xs):
        return self.N(ast.Tuple, elts=xs, ctx=ast.Load())

    def setctx(self, n):
        n.ctx = ast.Store()
        return n

    def assign(self, tgt, v):
        return self.N(ast.Assign, targets=[self.setctx(tgt)], value=v)

    # -- types
    def is_type(self, k=0):
        t = self.peek(k)
        if t.k != 'id':
            return False
        if t.v in QUAL or t.v in BASE or t.v in ('struct', 'enum', 'union') or t.v in self.u.typedefs:
            return True
        return False

    def decl_like(self):
        """does a declaration start here?  <type> [*]* <id>"""
        if self.is_type():
            return True
        t, j = self.peek(), 1
        if t.k != 'id' or t.v in ('return', 'if', 'for', 'while', 'do', 'switch', 'else', 'break', 'continue', 'goto', 'case', 'sizeof'):
            return False
        while self.peek(j).v == '*' and self.peek(j).k == 'op':
            j += 1
        if self.peek(j).k != 'id':
            return False
        nx = self.peek(j + 1).v
        if j == 1:
            return nx in ('=', ';', ',', '[')
        return nx in ('=', ';', ',', '[')

    def base_type(self):
        words = []
        while True:
            t = self.peek()
            if t.k == 'id' and t.v in QUAL:
                self.next()
                continue
            if t.k == 'id' and t.v in ('struct', 'enum', 'union'):
                self.next()
                words.append('struct ' + self.next().v)
                continue
            if t.k == 'id' and (t.v in BASE or not words):
                words.append(self.next().v)
                continue
            break
        if any(w in FLOATS for w in words):
            return 'float'
        if words and all(w in BASE for w in words):
            if 'void' in words:
                return 'void'
            if 'char' in words:
                return 'char'
            return 'int'
        return self.u.typedefs.get(words[0], words[0]) if words else 'int'

    # -- expressions
    def expr(self):
        x = self.assignment()
        while self.at(','):
            self.next()
            x = self.assignment()
        return x

    def assignment(self):
        l = self.ternary()
        t = self.peek()
        if t.k == 'op' and t.v == '=':
            self.next()
            r = self.assignment()
            self.pre.append(self.store(l, r))
            return l
        if t.k == 'op' and t.v in ('+=', '-=', '*=', '/=', '%=', '&=', '|='):
            self.next()
            r = self.assignment()
            v = self.binary(t.v[0], l, r)
            self.pre.append(self.store(l, v))
            return l
        return l

    def store(self, l, r):
        import copy
        n = copy.deepcopy(l.n)
        v = r.n
        if isinstance(n, ast.Name) and isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'gsl_matrix_view_array':
            b, off = v.args[0], None
            if isinstance(b, ast.Call) and getattr(b.func, 'attr', '') == 'ptr':
                b, off = b.args
            if isinstance(b, (ast.Name, ast.Attribute)):
                self.views[n.id] = (b, off)
                return self.assign(n, self.call('gsl.shape', v.args[1:]))
        if not isinstance(n, (ast.Name, ast.Attribute, ast.Subscript)):
            raise Unsupported('assignment to %s' % ast.dump(n)[:60])
        v = r.n
        if l.t == 'int' and r.t == 'float':
            v = self.call('int', [v])
        return self.assign(n, v)

    def ternary(self):
        c = self.lor()
        if self.take('?'):
            a = self.guarded(self.assignment_or_expr)
            self.need(':')
            b = self.guarded(self.ternary)
            t = a.t if a.t == b.t else ('float' if 'float' in (a.t, b.t) else a.t)
            return X(self.N(ast.IfExp, test=self.truth(c), body=a.n, orelse=b.n), t)
        return c

    def assignment_or_expr(self):
        return self.expr()

    def guarded(self, f):
        n = len(self.pre)
        x = f()
        if len(self.pre) != n:
            raise Unsupported('side effect in a conditional expression')
        return x

    def truth(self, x):
        if x.t.startswith('ptr') or x.t == 'obj*':
            return self.N(ast.Compare, left=x.n, ops=[ast.IsNot()], comparators=[self.const(None)])
        return x.n

    def lor(self):
        x = self.land()
        while self.at('||'):
            self.next()
            y = self.guarded(self.land)
            x = X(self.N(ast.BoolOp, op=ast.Or(), values=[self.truth(x), self.truth(y)]), 'int')
        return x

    def land(self):
        x = self.bor()
        while self.at('&&'):
            self.next()
            y = self.guarded(self.bor)
            x = X(self.N(ast.BoolOp, op=ast.And(), values=[self.truth(x), self.truth(y)]), 'int')
        return x

    def level(self, ops, sub):
        x = sub()
        while self.peek().k == 'op' and self.peek().v in ops:
            o = self.next().v
            y = sub()
            x = self.binary(o, x, y)
        return x

    def bor(self):
        return self.level(('|',), self.bxor)

    def bxor(self):
        return self.level(('^',), self.band)

    def band(self):
        return self.level(('&',), self.equality)

    def equality(self):
        return self.level(('==', '!='), self.relational)

    def relational(self):
        return self.level(('<', '>', '<=', '>='), self.shift)

    def shift(self):
        return self.level(('<<', '>>'), self.additive)

    def additive(self):
        return self.level(('+', '-'), self.mult)

    def mult(self):
        return self.level(('*', '/', '%'), self.cast)

    def binary(self, o, a, b):
        cmpo = {'==': ast.Eq, '!=': ast.NotEq, '<': ast.Lt, '>': ast.Gt, '<=': ast.LtE, '>=': ast.GtE}
        if o in cmpo:
            op = cmpo[o]()
            none = [x for x in (a, b) if isinstance(x.n, ast.Constant) and x.n.value is None]
            if none and o in ('==', '!='):
                if none[0] is a:
                    a, b = b, a
                op = ast.Is() if o == '==' else ast.IsNot()
            return X(self.N(ast.Compare, left=a.n, ops=[op], comparators=[b.n]), 'int')
        if o in ('+', '-') and (a.t.startswith('ptr') or b.t.startswith('ptr')):
            if b.t.startswith('ptr') and not a.t.startswith('ptr'):
                a, b = b, a
            k = b.n if o == '+' else self.N(ast.UnaryOp, op=ast.USub(), operand=b.n)
            return X(self.call('gsl.ptr', [a.n, k]), a.t)
        ops = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '%': ast.Mod, '|': ast.BitOr, '&': ast.BitAnd, '^': ast.BitXor,
               '<<': ast.LShift, '>>': ast.RShift}
        t = 'float' if 'float' in (a.t, b.t) else ('int' if a.t == b.t == 'int' else a.t)
        if o == '/' and a.t == 'int' and b.t == 'int':
            return X(self.N(ast.BinOp, left=a.n, op=ast.FloorDiv(), right=b.n), 'int')
        return X(self.N(ast.BinOp, left=a.n, op=ops[o](), right=b.n), t)

    def cast(self):
        if self.at('('):
            save = self.i
            self.next()
            if self.is_type() or (self.peek().k == 'id' and self.cast_ahead()):
                t = self.base_type()
                while self.take('*'):
                    t = 'ptr:' + t
                while self.peek().v in QUAL:
                    self.next()
                if self.take(')') and self.peek().v not in (')', ',', ';', '}') or (self.i and self.toks[self.i - 1].v == ')' and self.is_operand()):
                    x = self.cast()
                    if t == 'int' and x.t == 'float':
                        return X(self.call('int', [x.n]), 'int')
                    if t == 'float':
                        return X(x.n, 'float', x.lv)
                    return X(x.n, t if t != 'void' else x.t, x.lv)
            self.i = save
        return self.unary()

    def is_operand(self):
        t = self.peek()
        return t.k in ('id', 'num', 'str') or t.v in ('(', '&', '*')

    def cast_ahead(self):
        """( Name [*]* )  followed by an operand"""
        j = 1
        while self.peek(j).v == '*':
            j += 1
        if self.peek(j).v != ')' or self.peek(j).k != 'op':
            return False
        nx = self.peek(j + 1)
        if j > 1:
            return True
        return nx.k in ('id', 'num', 'str') and self.peek().v not in self.types

    def unary(self):
        t = self.peek()
        if t.k == 'op':
            if t.v in ('++', '--'):
                self.next()
                x = self.unary()
                v = self.binary(t.v[0], x, X(self.const(1), 'int'))
                self.pre.append(self.store(x, v))
                return x
            if t.v in ('-', '+'):
                self.next()
                x = self.cast()
                if t.v == '+':
                    return x
                if isinstance(x.n, ast.Constant) and isinstance(x.n.value, (int, float)):
                    return X(self.const(-x.n.value), x.t)
                return X(self.N(ast.UnaryOp, op=ast.USub(), operand=x.n), x.t)
            if t.v == '!':
                self.next()
                x = self.cast()
                if x.t.startswith('ptr'):
                    return X(self.N(ast.Compare, left=x.n, ops=[ast.Is()], comparators=[self.const(None)]), 'int')
                return X(self.N(ast.UnaryOp, op=ast.Not(), operand=x.n), 'int')
            if t.v == '~':
                self.next()
                x = self.cast()
                return X(self.N(ast.UnaryOp, op=ast.Invert(), operand=x.n), x.t)
            if t.v == '*':
                self.next()
                x = self.cast()
                if isinstance(x.n, ast.Call) and getattr(x.n.func, 'attr', '') == 'ptr' and len(x.n.args) == 2:
                    return X(self.sub(x.n.args[0], x.n.args[1]), x.t[4:] if x.t.startswith('ptr:') else 'obj')
                return X(self.sub(x.n, self.const(0)), x.t[4:] if x.t.startswith('ptr:') else 'obj')
            if t.v == '&':
                self.next()
                x = self.cast()
                n = x.n
                if x.lv == 'view':
                    return X(n, 'ptr:' + x.t)
                if isinstance(n, ast.Subscript):
                    if isinstance(n.slice, ast.Constant) and n.slice.value == 0:
                        return X(n.value, 'ptr:' + x.t)
                    return X(self.call('gsl.ptr', [n.value, n.slice]), 'ptr:' + x.t)
                return X(n, 'ptr:' + x.t, 'addr')
        if t.k == 'id' and t.v == 'sizeof':
            self.next()
            self.need('(')
            d, txt = 1, []
            while d:
                y = self.next()
                if y.k == 'eof':
                    raise Unsupported('sizeof')
                d += (y.v == '(') - (y.v == ')')
                if d:
                    txt.append(y.v)
            return X(self.call('gsl.sizeof', [self.const(' '.join(txt))]), 'int')
        return self.postfix()

    def postfix(self):
        x = self.primary()
        while True:
            if self.at('['):
                self.next()
                i = self.expr()
                self.need(']')
                b, k = x.n, i.n
                if isinstance(b, ast.Call) and getattr(b.func, 'attr', '') == 'ptr' and len(b.args) == 2:
                    k = self.N(ast.BinOp, left=b.args[1], op=ast.Add(), right=k)
                    b = b.args[0]
                x = X(self.sub(b, k), x.t[4:] if x.t.startswith('ptr:') else 'obj')
            elif self.at('.') or self.at('->'):
                self.next()
                f = self.next().v
                if f in ('matrix', 'vector') and isinstance(x.n, ast.Name) and x.n.id in self.views:
                    import copy
                    b, off = self.views[x.n.id]
                    b = copy.deepcopy(b)
                    if off is not None:
                        b = self.sub(b, copy.deepcopy(off))
                    x = X(b, 'gsl_' + f, 'view')
                    continue
                x = X(self.attr(x.n, self.mangle(f)), self.u.field(x.t, f))
            elif self.at('++') or self.at('--'):
                o = self.next().v
                v = self.binary(o[0], x, X(self.const(1), 'int'))
                # post-increment: only as a statement of its own
                if self.peek().v not in (';', ')', ','):
                    raise Unsupported('increment inside an expression')
                self.pre.append(self.store(x, v))
            elif self.at('('):
                x = self.callx(x)
            else:
                return x

    def primary(self):
        t = self.next()
        if t.k == 'num':
            s = t.v.rstrip('uUlL')
            if re.match(r'0[xX]', s):
                return X(self.const(int(s, 16)), 'int')
            if re.match(r'\d+$', s):
                return X(self.const(int(s)), 'int')
            return X(self.const(float(s.rstrip('fF'))), 'float')
        if t.k == 'str':
            s = ast.literal_eval(t.v)
            while self.peek().k == 'str':
                s += ast.literal_eval(self.next().v)
            return X(self.const(s), 'ptr:char')
        if t.k == 'chr':
            return X(self.const(t.v), 'int')
        if t.k == 'id':
            if t.v == 'NULL':
                return X(self.const(None), 'ptr:void')
            if t.v in self.types:
                ty = self.types[t.v]
                if t.v in self.boxed:
                    return X(self.sub(self.nm(self.mangle(t.v)), self.const(0)), ty)
                return X(self.nm(self.mangle(t.v)), ty)
            if t.v in self.u.defs:
                d = self.u.defs[t.v]
                return X(self.nm(t.v), 'float' if any('.' in y.v or 'e' in y.v.lower() for y in d if y.k == 'num') else 'int')
            return X(self.nm(t.v), 'fn' if t.v in self.u.fnames else ('int' if t.v.isupper() else 'obj'))
        if t.v == '(':
            x = self.expr()
            self.need(')')
            return x
        if t.v == '{':
            xs = []
            while not self.at('}'):
                if self.at('.'):
                    self.next()
                    k = self.next().v
                    self.need('=')
                    xs.append(self.tup([self.const('.' + k), self.assignment().n]))
                else:
                    xs.append(self.assignment().n)
                if not self.take(','):
                    break
            self.need('}')
            return X(self.tup(xs), 'obj')
        raise Unsupported('%s: unexpected %s (line %d)' % (self.name, t.v, t.line))

    def mangle(self, s):
        import keyword
        return s + '_' if keyword.iskeyword(s) else s

    # -- calls
    def callx(self, f):
        self.need('(')
        args = []
        while not self.at(')'):
            args.append(self.assignment())
            if not self.take(','):
                break
        self.need(')')
        if not isinstance(f.n, ast.Name):
            return X(self.call(f.n, [a.n for a in args]), 'obj')
        name = f.n.id
        A = [a.n for a in args]
        import copy

        def cp(n):
            return copy.deepcopy(n)

        def put(dst, v):
            d = cp(dst)
            self.pre.append(self.assign(d if isinstance(d, ast.Subscript) else self.full(d), v))

        def put0(dst, v):
            d = cp(dst)
            if isinstance(d, (ast.Name, ast.Attribute)) and any(x.n is dst and x.lv == 'addr' for x in args):
                self.pre.append(self.assign(d, v))
                return
            self.pre.append(self.assign(self.sub(d, self.const(0)), v))
        if name in self.u.fnames:
            return X(self.call(self.nm(name), A), self.u.fnames[name])
        if name == 'pow' and len(A) == 2:
            return X(self.N(ast.BinOp, left=A[0], op=ast.Pow(), right=A[1]), 'float')
        if name in ('abs', 'labs'):
            return X(self.call('abs', A), args[0].t)
        if name in LIBM:
            return X(self.call('np.' + LIBM[name], A), 'int' if name.startswith('is') or name == 'finite' else 'float')
        if name in SKIP or re.match(r'gsl_\w+_free$', name):
            return X(self.const(0), 'int')
        if name in IDENT:
            return X(A[0], 'ptr:float')
        if name == 'gsl_matrix_get':
            return X(self.sub2(A[0], A[1:3]), 'float')
        if name == 'gsl_vector_get':
            return X(self.sub(A[0], A[1]), 'float')
        if name == 'gsl_matrix_set':
            self.pre.append(self.assign(self.sub2(cp(A[0]), A[1:3]), A[3]))
            return X(self.const(0), 'int')
        if name == 'gsl_vector_set':
            self.pre.append(self.assign(self.sub(cp(A[0]), A[1]), A[2]))
            return X(self.const(0), 'int')
        if name in ('gsl_matrix_set_zero', 'gsl_vector_set_zero'):
            put(A[0], self.const(0.0))
            return X(self.const(0), 'int')
        if name in ('gsl_matrix_set_all', 'gsl_vector_set_all'):
            put(A[0], A[1])
            return X(self.const(0), 'int')
        if name == 'gsl_matrix_set_identity':
            put(A[0], self.call('gsl.identity', [self.const(1)]))
            return X(self.const(0), 'int')
        m = re.match(r'gsl_(matrix|vector)_(add|sub)$', name)
        if m:
            put(A[0], self.N(ast.BinOp, left=cp(A[0]), op=ast.Add() if m.group(2) == 'add' else ast.Sub(), right=A[1]))
            return X(self.const(0), 'int')
        if name in ('gsl_matrix_scale', 'gsl_vector_scale'):
            put(A[0], self.N(ast.BinOp, left=cp(A[0]), op=ast.Mult(), right=A[1]))
            return X(self.const(0), 'int')
        if name in ('gsl_matrix_memcpy', 'gsl_vector_memcpy'):
            put(A[0], self.call('gsl.value', [A[1]]))
            return X(self.const(0), 'int')
        if name in ('memcpy', 'memmove'):
            put(A[0], self.call('gsl.memcpy', A[1:]))
            return X(self.const(0), 'int')
        if name == 'gsl_blas_dgemm':
            put(A[6], self.call('gsl.dgemm', A[:6] + ([] if isinstance(A[5], ast.Constant) and A[5].value == 0 else [cp(A[6])])))
            return X(self.const(0), 'int')
        if name == 'gsl_blas_dgemv':
            put(A[5], self.call('gsl.dgemv', A[:5] + ([] if isinstance(A[4], ast.Constant) and A[4].value == 0 else [cp(A[5])])))
            return X(self.const(0), 'int')
        if name == 'gsl_blas_ddot':
            put0(A[2], self.call('gsl.ddot', A[:2]))
            return X(self.const(0), 'int')
        if name == 'gsl_linalg_LU_decomp':
            self.ntmp += 1
            old = '_lu%d' % self.ntmp
            self.pre.append(self.assign(self.nm(old), self.call('gsl.value', [cp(A[0])])))
            put(A[0], self.call('gsl.LU', [self.nm(old)]))
            put(A[1], self.call('gsl.LUperm', [self.nm(old)]))
            put0(A[2], self.call('gsl.LUsign', [self.nm(old)]))
            return X(self.const(0), 'int')
        if name == 'gsl_linalg_LU_invert':
            put(A[2], self.call('gsl.LUinvert', A[:2]))
            return X(self.const(0), 'int')
        if name == 'gsl_linalg_LU_det':
            return X(self.call('gsl.LUdet', A), 'float')
        if name == 'gsl_eigen_symm':
            self.ntmp += 1
            old = '_ev%d' % self.ntmp
            self.pre.append(self.assign(self.nm(old), self.call('gsl.value', [cp(A[0])])))
            put(A[0], self.call('gsl.eigdestroyed', [self.nm(old)]))
            put(A[1], self.call('gsl.eigvals', [self.nm(old)]))
            return X(self.const(0), 'int')
        if name == 'gsl_eigen_symmv':
            self.ntmp += 1
            old = '_ev%d' % self.ntmp
            self.pre.append(self.assign(self.nm(old), self.call('gsl.value', [cp(A[0])])))
            put(A[0], self.call('gsl.eigdestroyed', [self.nm(old)]))
            put(A[1], self.call('gsl.eigvals', [self.nm(old)]))
            put(A[2], self.call('gsl.eigvecs', [self.nm(old)]))
            return X(self.const(0), 'int')
        m = re.match(r'gsl_(\w+)_(alloc|calloc)$', name)
        if m:
            return X(self.call('np.zeros' if m.group(2) == 'calloc' else 'np.empty', [self.tup(A)]), 'ptr:gsl_' + m.group(1))
        if name in ('malloc', 'calloc'):
            return X(self.call('np.zeros' if name == 'calloc' else 'np.empty', [self.tup(A)]), 'ptr:void')
        if name == 'PyArray_ZEROS' or name == 'PyArray_EMPTY':
            return X(self.call('np.zeros' if name.endswith('ZEROS') else 'np.empty',
                               [self.tup([A[0], self.sub(A[1], self.const(0)), A[3]]), A[2]]), 'ptr:PyObject')
        if name in ('PyArray_SimpleNew',):
            return X(self.call('np.empty', [self.tup([A[0], self.sub(A[1], self.const(0)), self.const(0)]), A[2]]), 'ptr:PyObject')
        if name == 'PyTuple_New':
            return X(self.call('np.empty', [A[0], self.const('PyTuple')]), 'ptr:PyObject')
        if name == 'PyTuple_Pack':
            return X(self.tup(A[1:]), 'ptr:PyObject')
        if name == 'Py_BuildValue' and isinstance(A[0], ast.Constant) and re.match(r'\([NOS]+\)$|[NOS][NOS]+$', str(A[0].value)):
            return X(self.tup(A[1:]), 'ptr:PyObject')
        if name in ('PyTuple_SET_ITEM', 'PyTuple_SetItem', 'PyList_SET_ITEM'):
            self.pre.append(self.assign(self.sub(cp(A[0]), A[1]), A[2]))
            return X(self.const(0), 'int')
        if name == 'PyArg_ParseTuple':
            fmt = A[1].value if isinstance(A[1], ast.Constant) else None
            if not isinstance(fmt, str):
                raise Unsupported('argument format')
            codes = [c for c in fmt.split(':')[0].split(';')[0] if c not in '|$']
            if len(codes) != len(A) - 2:
                codes = (codes + ['?'] * len(A))[:len(A) - 2]
            for k, (c, a) in enumerate(zip(codes, args[2:])):
                put0(a.n, self.call('gsl.arg', [cp(A[0]), self.const(k), self.const(c)]))
            return X(self.call('gsl.parsed', [A[0], self.const(fmt)]), 'int')
        if name == 'PyErr_SetString':
            self.pre.append(self.N(ast.Raise, exc=self.call(A[0], A[1:]), cause=None))
            return X(self.const(0), 'int')
        m = re.match(r'(gsl_\w+|Py\w+|npy_\w+|erf|erfc|sprintf|strlen|strcmp|[a-z]\w*)$', name)
        if m:
            rt = 'obj'
            if name in ('erf', 'erfc', 'atan', 'atan2', 'asin', 'acos', 'tan', 'exp2', 'log2', 'expm1', 'log1p', 'hypot', 'cbrt', 'tgamma', 'lgamma'):
                rt = 'float'
            elif name.startswith('gsl_'):
                rt = 'struct'
            elif name in ('PyArray_DIM', 'PyArray_NDIM', 'PyArray_SIZE', 'PyArray_TYPE'):
                rt = 'int'
            if name in ('sprintf', 'snprintf'):
                put(A[0], self.call('gsl.' + name, A[1:]))
                return X(self.const(0), 'int')
            return X(self.call('gsl.' + name, A), rt)
        return X(self.call(f.n, A), 'obj')

    # -- statements
    def flush(self):
        p, self.pre = self.pre, []
        return p

    def block(self):
        """statement or { ... } -> list of python statements"""
        if self.take('{'):
            out = []
            while not self.at('}'):
                if self.peek().k == 'eof':
                    raise Unsupported('unterminated block')
                out += self.stmt()
            self.need('}')
            return out
        return self.stmt()

    def stmt(self):
        t = self.peek()
        self.line = t.line
        if t.v == '{' and t.k == 'op':
            return self.block()
        if t.v == ';' and t.k == 'op':
            self.next()
            return []
        if t.k == 'id':
            if t.v == 'if':
                self.next()
                self.need('(')
                c = self.expr()
                self.need(')')
                pre = self.flush()
                test = self.truth(c)
                a = self.block()
                b = self.block() if self.take('else') else []
                return pre + [self.N(ast.If, test=test, body=a or [self.N(ast.Pass)], orelse=b)]
            if t.v == 'while':
                self.next()
                self.need('(')
                c = self.expr()
                self.need(')')
                pre = self.flush()
                body = self.block()
                if pre:
                    test = self.const(True)
                    body = pre + [self.N(ast.If, test=self.N(ast.UnaryOp, op=ast.Not(), operand=self.truth(c)), body=[self.N(ast.Break)], orelse=[])] + body
                else:
                    test = self.truth(c)
                return [self.N(ast.While, test=test, body=body or [self.N(ast.Pass)], orelse=[])]
            if t.v == 'do':
                self.next()
                body = self.block()
                self.need('while')
                self.need('(')
                c = self.expr()
                self.need(')')
                self.need(';')
                pre = self.flush()
                if any(isinstance(x, ast.Continue) for s in body for x in ast.walk(s)):
                    raise Unsupported('continue in do-while')
                stop = self.N(ast.If, test=self.N(ast.UnaryOp, op=ast.Not(), operand=self.truth(c)), body=[self.N(ast.Break)], orelse=[])
                return [self.N(ast.While, test=self.const(True), body=body + pre + [stop], orelse=[])]
            if t.v == 'for':
                return self.for_()
            if t.v == 'switch':
                return self.switch()
            if t.v == 'return':
                self.next()
                if self.take(';'):
                    return [self.N(ast.Return, value=None)]
                x = self.expr()
                self.need(';')
                return self.flush() + [self.N(ast.Return, value=x.n)]
            if t.v == 'break':
                self.next()
                self.need(';')
                return [self.N(ast.Break)]
            if t.v == 'continue':
                self.next()
                self.need(';')
                return [self.N(ast.Continue)]
            if t.v == 'goto' or self.peek(1).v == ':' and t.v not in ('default', 'case'):
                raise Unsupported('goto')
            if self.decl_like():
                return self.declaration()
        x = self.expr()
        self.need(';')
        out = self.flush()
        if isinstance(x.n, ast.Call) and not (isinstance(x.n.func, ast.Attribute) and isinstance(x.n.func.value, ast.Name) and
                                             x.n.func.value.id == 'gsl' and x.n.func.attr == 'parsed'):
            if not (out and isinstance(out[-1], ast.Assign) and out[-1].value is x.n):
                out.append(self.N(ast.Expr, value=x.n))
        return out

    def declaration(self):
        bt = self.base_type()
        out = []
        if self.take(';'):
            return out
        while True:
            t = bt
            while self.take('*'):
                t = 'ptr:' + t
                while self.peek().v in QUAL:
                    self.next()
            name = self.next()
            if name.k != 'id':
                raise Unsupported('declarator')
            arr = None
            while self.take('['):
                arr = self.expr().n if not self.at(']') else self.const(0)
                self.need(']')
                t = 'ptr:' + t
            self.types[name.v] = t
            m = self.mangle(name.v)
            if arr is not None:
                if self.take('='):
                    v = self.assignment()
                    out += self.flush()
                    out.append(self.assign(self.nm(m), v.n))
                else:
                    out.append(self.assign(self.nm(m), self.call('np.empty', [arr])))
            elif name.v in self.boxed:
                out.append(self.assign(self.nm(m), self.call('np.empty', [self.const(1)])))
                if self.take('='):
                    v = self.assignment()
                    out += self.flush()
                    out.append(self.assign(self.sub(self.nm(m), self.const(0)), v.n))
            elif self.take('='):
                v = self.assignment()
                out += self.flush()
                val = v.n
                if t == 'int' and v.t == 'float':
                    val = self.call('int', [val])
                out.append(self.assign(self.nm(m), val))
            if self.take(','):
                continue
            self.need(';')
            return out

    def for_(self):
        self.next()
        self.need('(')
        init = []
        if not self.at(';'):
            if self.decl_like():
                init = self.declaration()
            else:
                self.expr()
                init = self.flush()
                self.need(';')
        else:
            self.next()
        cond = None
        if not self.at(';'):
            cond = self.expr()
            if self.pre:
                raise Unsupported('side effect in a loop condition')
        self.need(';')
        inc = []
        if not self.at(')'):
            self.expr()
            inc = self.flush()
        self.need(')')
        line = self.line
        body = self.block()
        self.line = line
        r = self.as_range(init, cond, inc, body)
        if r is not None:
            return r
        if any(isinstance(x, ast.Continue) for s in body for x in ast.walk(s)):
            raise Unsupported('continue in a general for loop')
        test = self.truth(cond) if cond is not None else self.const(True)
        return init + [self.N(ast.While, test=test, body=(body + inc) or [self.N(ast.Pass)], orelse=[])]

    def as_range(self, init, cond, inc, body):
        if len(init) < 1 or len(inc) != 1 or cond is None:
            return None
        a = init[-1]
        if not (isinstance(a, ast.Assign) and isinstance(a.targets[0], ast.Name)):
            return None
        v = a.targets[0].id
        c = cond.n
        if not (isinstance(c, ast.Compare) and len(c.ops) == 1):
            return None
        l, o, r = c.left, c.ops[0], c.comparators[0]
        if isinstance(r, ast.Name) and r.id == v:
            l, r = r, l
            o = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(type(o), type(o))()
        if not (isinstance(l, ast.Name) and l.id == v):
            return None
        s = inc[0]
        if not (isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id == v and isinstance(s.value, ast.BinOp)
                and isinstance(s.value.left, ast.Name) and s.value.left.id == v and isinstance(s.value.right, ast.Constant)):
            return None
        k = s.value.right.value
        sg = 1 if isinstance(s.value.op, ast.Add) else -1 if isinstance(s.value.op, ast.Sub) else 0
        if not sg or not isinstance(k, int) or k < 1:
            return None
        assigned = set()
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    assigned.add(x.id)
        if v in assigned or any(isinstance(x, ast.Name) and x.id in assigned for x in ast.walk(r)):
            return None
        one = self.const(1)
        if sg > 0 and isinstance(o, (ast.Lt, ast.NotEq)):
            stop = r
        elif sg > 0 and isinstance(o, ast.LtE):
            stop = self.N(ast.BinOp, left=r, op=ast.Add(), right=one)
        elif sg < 0 and isinstance(o, ast.Gt):
            stop = r
        elif sg < 0 and isinstance(o, ast.GtE):
            stop = self.N(ast.BinOp, left=r, op=ast.Sub(), right=one)
        else:
            return None
        start = a.value
        args = [start, stop] + ([self.const(sg * k)] if sg * k != 1 else [])
        if len(args) == 2 and isinstance(start, ast.Constant) and start.value == 0:
            args = [stop]
        tgt = self.N(ast.Name, id=v, ctx=ast.Store())
        return init[:-1] + [self.N(ast.For, target=tgt, iter=self.call('range', args), body=body or [self.N(ast.Pass)], orelse=[], type_comment=None)]

    def switch(self):
        self.next()
        self.need('(')
        c = self.expr()
        self.need(')')
        pre = self.flush()
        self.need('{')
        arms, cur = [], None
        while not self.take('}'):
            if self.peek().k == 'eof':
                raise Unsupported('switch')
            if self.at('case') or self.at('default'):
                labels = []
                while self.at('case') or self.at('default'):
                    if self.next().v == 'default':
                        labels.append(None)
                    else:
                        labels.append(self.ternary().n)
                    self.need(':')
                cur = (labels, [])
                arms.append(cur)
                continue
            if cur is None:
                raise Unsupported('switch')
            cur[1].extend(self.stmt())
        chain = []
        for k, (labels, body) in reversed(list(enumerate(arms))):
            last = body[-1] if body else None
            if isinstance(last, ast.Break):
                body = body[:-1]
            elif not isinstance(last, (ast.Return, ast.Raise)) and k != len(arms) - 1:
                raise Unsupported('fall through')
            if any(isinstance(x, ast.Break) for s in body if not isinstance(s, (ast.For, ast.While)) for x in ast.walk(s)):
                raise Unsupported('break inside a case')
            if None in labels:
                if k != len(arms) - 1:
                    raise Unsupported('default before the last case')
                chain = body
                continue
            tests = [self.N(ast.Compare, left=c.n, ops=[ast.Eq()], comparators=[x]) for x in labels]
            test = tests[0] if len(tests) == 1 else self.N(ast.BoolOp, op=ast.Or(), values=tests)
            chain = [self.N(ast.If, test=test, body=body or [self.N(ast.Pass)], orelse=chain)]
        return pre + chain


class Unit(object):
    """the C files of one extension directory"""
    def __init__(self, d, rel, ov):
        self.dir, self.rel = d, rel
        self.defs, self.funcdefs, self.typedefs, self.structs, self.fnames = {}, {}, {}, {}, {}
        self.funcdefs['PyVarObject_HEAD_INIT'] = ([], scan('0,', 0, ''))
        self.unsupported = {}
        self.files = []
        toks = []
        names = sorted(f for f in os.listdir(d) if f.endswith(('.h', '.c')))
        names = [f for f in names if f.endswith('.h')] + [f for f in names if f.endswith('.c')]
        for f in names:
            self.files.append(f)
            toks.append((f, lex(os.path.join(d, f), f, self.defs, self.funcdefs, ov.get(os.path.join(rel, f)))))
        self.defs.pop('NPY_NO_DEPRECATED_API', None)
        self.defs.pop('PyMODINIT_FUNC', None)
        body = []
        for k, v in sorted(self.defs.items()):
            v = expand(v, self.defs, self.funcdefs)
            if not v:
                continue
            try:
                ft = FuncTranslator(v, self, k)
                e = ft.expr()
                if ft.i != len(v):
                    continue
                body.append(ft.assign(ft.nm(k), e.n))
            except (Unsupported, SyntaxError, ValueError, IndexError):
                pass
        items = []
        for f, t in toks:
            t = expand(t, self.defs, self.funcdefs)
            items += [(f, x) for x in self.toplevel(t)]
        for f, (kind, name, payload) in items:
            if kind == 'func':
                self.fnames[name] = payload[0]
        for f, (kind, name, payload) in items:
            try:
                if kind == 'func':
                    body.append(self.function(f, name, *payload))
                elif kind == 'var':
                    n = self.variable(f, name, payload)
                    if n is not None:
                        body.append(n)
            except (Unsupported, SyntaxError, ValueError, IndexError, KeyError) as e:
                self.unsupported[name] = '%s: %s' % (type(e).__name__, e)
        imp = ast.parse('import numpy as np\nimport gsl').body
        self.tree = ast.fix_missing_locations(ast.Module(body=imp + body, type_ignores=[]))

    def field(self, t, f):
        while t.startswith('ptr:'):
            t = t[4:]
        return self.structs.get(t, {}).get(f, 'obj')

    def toplevel(self, toks):
        """split into items: functions, struct definitions, initialised variables"""
        i, out = 0, []
        while i < len(toks):
            j, d = i, 0
            body = None
            while j < len(toks):
                v = toks[j].v if toks[j].k == 'op' else ''
                if v == '{' and d == 0:
                    # function body or initialiser or struct
                    k, dd = j, 0
                    while k < len(toks):
                        vv = toks[k].v if toks[k].k == 'op' else ''
                        dd += (vv == '{') - (vv == '}')
                        k += 1
                        if dd == 0:
                            break
                    head = toks[i:j]
                    if head and head[-1].v == ')':
                        body = (head, toks[j:k])
                        j = k - 1
                        break
                    j = k - 1
                elif v in ('(', '['):
                    d += 1
                elif v in (')', ']'):
                    d -= 1
                elif v == ';' and d == 0:
                    break
                j += 1
            seg = toks[i:j]
            i = j + 1
            if body is not None:
                head, b = body
                # name ( params )
                d, k = 0, len(head) - 1
                while k >= 0:
                    d += (head[k].v == ')') - (head[k].v == '(')
                    if d == 0:
                        break
                    k -= 1
                if k >= 1 and head[k - 1].k == 'id':
                    rt = [x.v for x in head[:k - 1]]
                    ty = 'float' if any(x in FLOATS for x in rt) else 'int' if any(x in ('int', 'long') for x in rt) else 'obj'
                    if '*' in rt:
                        ty = 'ptr:' + ty
                    out.append(('func', head[k - 1].v, (ty, head[k + 1:-1], b)))
                continue
            if not seg:
                continue
            vs = [x.v for x in seg]
            if vs[0] == 'typedef':
                if len(vs) >= 3 and '{' not in vs:
                    nm = vs[-1]
                    self.typedefs[nm] = 'float' if any(x in FLOATS for x in vs) else 'int' if all(x in BASE or x in QUAL for x in vs[1:-1]) else 'obj'
                else:
                    self.struct(seg[1:], vs[-1])
                continue
            if vs[0] == 'struct' and '{' in vs and '=' not in vs[:vs.index('{')]:
                self.struct(seg, None)
                continue
            if '=' in vs:
                q = vs.index('=')
                ids = [x for x in seg[:q] if x.k == 'id']
                if ids:
                    out.append(('var', ids[-1].v, seg[q + 1:]))
        return out

    def struct(self, seg, alias):
        vs = [x.v for x in seg]
        if '{' not in vs:
            return
        a = vs.index('{')
        b = len(vs) - 1 - vs[::-1].index('}')
        name = alias if alias else vs[1]
        fields, cur = {}, []
        for x in seg[a + 1:b]:
            if x.v == 'PyObject_HEAD':
                continue
            if x.v == ';':
                ids = [y.v for y in cur if y.k == 'id']
                if ids:
                    if any(y in FLOATS for y in ids):
                        t = 'float'
                    elif 'struct' in ids:
                        t = 'struct ' + ids[ids.index('struct') + 1]
                    elif all(y in BASE or y in QUAL for y in ids[:-1]):
                        t = 'int'
                    else:
                        t = 'obj'
                    t = 'ptr:' * sum(y.v == '*' for y in cur) + t
                    fields[ids[-1]] = t
                cur = []
            else:
                cur.append(x)
        self.structs['struct ' + name] = fields
        self.structs[name] = fields

    def variable(self, f, name, toks):
        ft = FuncTranslator(toks, self, name)
        ft.types = {}
        x = ft.expr()
        n = ft.assign(ft.nm(name), x.n)
        n._cfile = f
        # macro with arguments used as an initialiser: dropped pieces do not matter
        return n

    def function(self, f, name, rt, params, body):
        ft = FuncTranslator(body, self, name)
        ft.line = body[0].line
        args = []
        cur, d = [], 0
        groups = []
        for t in params:
            d += (t.v in '([') - (t.v in ')]') if t.k == 'op' else 0
            if t.v == ',' and d == 0:
                groups.append(cur)
                cur = []
            else:
                cur.append(t)
        if cur:
            groups.append(cur)
        prm = []
        for g in groups:
            pt = FuncTranslator(g, self, name)
            ty = pt.base_type()
            while pt.at('*') or pt.peek().v in QUAL:
                if pt.next().v == '*':
                    ty = 'ptr:' + ty
            if pt.peek().k != 'id':
                continue
            nm = pt.next().v
            if pt.at('['):
                ty = 'ptr:' + ty
            ft.types[nm] = ty
            prm.append(nm)
            args.append(ast.arg(arg=ft.mangle(nm), annotation=None, lineno=ft.line, col_offset=0, end_lineno=ft.line, end_col_offset=0))
        # scalars whose address is taken live in one-element arrays
        decl = scalar_decls(body)
        for a, b in zip(body, body[1:] + [Tok('eof', '', 0, '')]):
            pass
        for k in range(1, len(body) - 1):
            if body[k].k == 'op' and body[k].v == '&' and body[k + 1].k == 'id' and body[k - 1].k == 'op' and body[k - 1].v in ('(', ',', '=', ')'):
                v = body[k + 1].v
                nx = body[k + 2].v if k + 2 < len(body) else ''
                if v in decl and nx not in ('[', '->', '.', '(') and enclosing(body, k) not in OUTCALLS:
                    ft.boxed.add(v)
        stmts = ft.block()
        stmts = self.tidy(stmts)
        fn = ast.FunctionDef(name=name, args=ast.arguments(posonlyargs=[], args=args, vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]),
                             body=stmts or [ast.Pass()], decorator_list=[], returns=None, type_comment=None, type_params=[])
        fn.lineno = body[0].line
        fn.end_lineno = body[-1].line
        fn.col_offset = fn.end_col_offset = 0
        fn._cfile = f
        fn._boxed = sorted(prm and [p for p in prm if p in ft.boxed])
        if fn._boxed:
            raise Unsupported('address of a parameter')
        return fn

    def tidy(self, stmts):
        """statements after a raise are the error return that goes with it"""
        out = []
        for s in stmts:
            for fld in ('body', 'orelse'):
                if getattr(s, fld, None) and isinstance(getattr(s, fld), list):
                    setattr(s, fld, self.tidy(getattr(s, fld)) or ([ast.Pass()] if fld == 'body' else []))
            out.append(s)
            if isinstance(s, (ast.Raise, ast.Return)):
                break
        return out


OUTCALLS = ('PyArg_ParseTuple', 'gsl_blas_ddot', 'gsl_linalg_LU_decomp')


def enclosing(body, k):
    d = 0
    while k > 0:
        k -= 1
        if body[k].k != 'op':
            continue
        if body[k].v == ')':
            d += 1
        elif body[k].v == '(':
            if d == 0:
                return body[k - 1].v if body[k - 1].k == 'id' else ''
            d -= 1
    return ''


def scalar_decls(body):
    """names declared in the body without * and [] """
    out = set()
    k, start = 0, True
    while k < len(body):
        t = body[k]
        if start and t.k == 'id':
            j = k
            words = 0
            while j < len(body) and body[j].k == 'id':
                words += 1
                j += 1
            if words >= 2 or (words == 1 and j < len(body) and body[j].v == '*'):
                # declarators up to ;
                ptr, depth = False, 0
                if words >= 2 and body[k].v not in ('return', 'else', 'goto', 'case'):
                    cur = body[j - 1].v
                    p = j
                    ptr = False
                    name = cur
                    if body[j].v not in ('[', '('):
                        out.add(name)
                    while p < len(body) and body[p].v != ';':
                        v = body[p].v
                        depth += (v in '([{') - (v in ')]}') if body[p].k == 'op' else 0
                        if v == ',' and depth == 0:
                            q = p + 1
                            st = 0
                            while body[q].v == '*':
                                st += 1
                                q += 1
                            if body[q].k == 'id' and body[q + 1].v != '[' and not st:
                                out.add(body[q].v)
                            elif body[q].k == 'id' and st:
                                out.add(body[q].v)
                        p += 1
                else:
                    # T *a, *b: pointers whose own address may be taken
                    p = j
                    depth = 0
                    while p < len(body) and body[p].v != ';':
                        v = body[p].v
                        depth += (v in '([{') - (v in ')]}') if body[p].k == 'op' else 0
                        if v == '*' and body[p + 1].k == 'id' and depth == 0 and body[p + 2].v in ('=', ',', ';'):
                            out.add(body[p + 1].v)
                        p += 1
        start = t.k == 'op' and t.v in (';', '{', '}', '(')
        k += 1
    return out


def units(root, ov=None):
    out = []
    top = os.path.join(root, 'redmapper')
    for d, dirs, files in sorted(os.walk(top)):
        dirs.sort()
        if any(f.endswith('.c') for f in files):
            rel = os.path.relpath(d, root)
            out.append((rel, Unit(d, rel, ov or {})))
    return out


if __name__ == '__main__':
    import sys
    for rel, u in units(sys.argv[1] if len(sys.argv) > 1 else '/repo'):
        print('#', rel, u.files, u.unsupported)
        print(ast.unparse(u.tree))
