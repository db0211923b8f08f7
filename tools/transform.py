"""Source transformations used to test the checks both ways (development tool).

mutants(src, qual)    -> [(label, newsrc)]   behaviour-changing edits
refactors(src, qual)  -> [(label, newsrc)]   behaviour-preserving edits
"""
import ast
import copy
import random


def find(tree, qual):
    parts = qual.split('.')
    body = tree.body
    if len(parts) == 2:
        for n in body:
            if isinstance(n, ast.ClassDef) and n.name == parts[0]:
                for m in n.body:
                    if isinstance(m, ast.FunctionDef) and m.name == parts[1] and not any(
                            isinstance(d, ast.Attribute) and d.attr == 'setter' for d in m.decorator_list):
                        return m, n
        return None, None
    for n in body:
        if isinstance(n, ast.FunctionDef) and n.name == parts[0]:
            return n, None
    return None, None


CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}


def is_log(n):
    for x in ast.walk(n):
        if isinstance(x, ast.Attribute) and x.attr in ('logger', 'info', 'savefig'):
            return True
        if isinstance(x, ast.Name) and x.id in ('print', 'plt', 'warnings', 'fig', 'ax'):
            return True
    return False


def mutants(src, qual, seed=0):
    base = ast.parse(src)
    fn, _ = find(base, qual)
    if fn is None:
        return []
    nodes = list(ast.walk(fn))
    skip = set()
    for n in nodes:
        if isinstance(n, (ast.Expr, ast.Raise)) and (is_log(n) or isinstance(n, ast.Raise) or isinstance(n.value, ast.Constant)):
            for x in ast.walk(n):
                skip.add(id(x))
    out = []

    def emit(label, idx, change):
        t = copy.deepcopy(base)
        f, _ = find(t, qual)
        ns = list(ast.walk(f))
        if change(ns[idx], f) is False:
            return
        ast.fix_missing_locations(t)
        try:
            s = ast.unparse(t)
            ast.parse(s)
        except Exception:
            return
        out.append(('%s@%s' % (label, getattr(nodes[idx], 'lineno', '?')), s))

    def parent_replace(f, node, new):
        for p in ast.walk(f):
            for field, v in ast.iter_fields(p):
                if v is node:
                    setattr(p, field, new)
                    return True
                if isinstance(v, list):
                    for i, x in enumerate(v):
                        if x is node:
                            v[i] = new
                            return True
        return False

    def remove_stmt(f, node):
        for p in ast.walk(f):
            for field in ('body', 'orelse', 'finalbody'):
                v = getattr(p, field, None)
                if isinstance(v, list) and node in v:
                    i = v.index(node)
                    v[i] = ast.copy_location(ast.Pass(), node)
                    return True
        return False

    for i, n in enumerate(nodes):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for nop in CMP.get(type(n.ops[0]), []):
                emit('cmp-' + nop.__name__, i, lambda x, f, nop=nop: x.ops.__setitem__(0, nop()))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.op, ast.Add) and (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                continue
            emit('bin', i, lambda x, f: setattr(x, 'op', BIN[type(x.op)]()))
        elif isinstance(n, ast.BoolOp):
            emit('bool', i, lambda x, f: setattr(x, 'op', ast.Or() if isinstance(x.op, ast.And) else ast.And()))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            emit('const', i, lambda x, f: setattr(x, 'value', x.value + 1))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            emit('boolconst', i, lambda x, f: setattr(x, 'value', not x.value))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            emit('unary', i, lambda x, f: parent_replace(f, x, x.operand))
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and not isinstance(n.slice, ast.Constant):
            emit('dropidx', i, lambda x, f: parent_replace(f, x, x.value))
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and not is_log(n):
            tg = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if not isinstance(tg, (ast.Name, ast.Tuple)) or isinstance(n, ast.AugAssign):
                emit('delstmt', i, lambda x, f: remove_stmt(f, x))
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            emit('delcall', i, lambda x, f: remove_stmt(f, x))
        elif isinstance(n, ast.If) and not is_log(n.test):
            emit('negif', i, lambda x, f: setattr(x, 'test', ast.UnaryOp(ast.Not(), x.test)))
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not is_log(n):
            emit('swapargs', i, lambda x, f: x.args.__setitem__(slice(0, 2), [x.args[1], x.args[0]]))
        elif isinstance(n, ast.Call) and n.keywords and not is_log(n):
            emit('dropkw', i, lambda x, f: x.keywords.pop(0) and None)
        elif isinstance(n, (ast.Continue, ast.Break)):
            emit('delctl', i, lambda x, f: remove_stmt(f, x))
    return out


# ----------------------------------------------------------------------------- refactors
def locals_of(fn):
    args = set(a.arg for a in fn.args.args + fn.args.kwonlyargs)
    if fn.args.vararg:
        args.add(fn.args.vararg.arg)
    if fn.args.kwarg:
        args.add(fn.args.kwarg.arg)
    st = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            st.add(n.id)
        if isinstance(n, ast.Global):
            return args, set()
        if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn:
            args |= set(a.arg for a in n.args.args)
    return args, st - args


class Ren(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        if n.id in self.m:
            n.id = self.m[n.id]
        return n



def names(n, ctx):
    out = set()
    for s in (n if isinstance(n, list) else [n]):
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ctx):
                out.add(x.id)
    return out


def has_ctl(stmts):
    for s in stmts:
        for x in ast.walk(s):
            if isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.FunctionDef, ast.Lambda, ast.Try, ast.With, ast.Delete, ast.ImportFrom, ast.Import)):
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'super':
                return True
    return False


def refactors(src, qual, seed=0, per=3):
    base = ast.parse(src)
    fn, cls = find(base, qual)
    if fn is None:
        return []
    rnd = random.Random(hash(qual) % 1000 + seed)
    out = []

    def fin(t, label):
        ast.fix_missing_locations(t)
        try:
            s = ast.unparse(t)
            ast.parse(s)
            out.append((label, s))
        except Exception:
            pass

    def fresh():
        t = copy.deepcopy(base)
        f, c = find(t, qual)
        return t, f, c

    # 1 rename locals
    t, f, c = fresh()
    a, loc = locals_of(f)
    if loc and not any(isinstance(n, ast.Name) and n.id in ('locals', 'eval', 'exec') for n in ast.walk(f)):
        Ren(dict((x, x + '_rn') for x in loc)).visit(f)
        fin(t, 'rename')

    # 2 extract helpers
    def blocks(f):
        for p in ast.walk(f):
            for field in ('body', 'orelse'):
                v = getattr(p, field, None)
                if isinstance(v, list) and v and all(isinstance(s, ast.stmt) for s in v):
                    yield v
    t, f, c = fresh()
    cand = []
    for bi, v in enumerate(blocks(f)):
        for i in range(len(v)):
            for j in range(i + 1, min(len(v), i + 5) + 1):
                if not has_ctl(v[i:j]) and not (i == 0 and isinstance(v[0], ast.Expr) and isinstance(v[0].value, ast.Constant)):
                    cand.append((bi, i, j))
    rnd.shuffle(cand)
    for bi, i, j in cand[:per]:
        t, f, c = fresh()
        a, loc = locals_of(f)
        v = list(blocks(f))[bi]
        blk = v[i:j]
        stored = names(blk, ast.Store)
        allv = a | loc
        # definitely assigned inside block at top level
        definite = set()
        for s in blk:
            if isinstance(s, ast.Assign):
                definite |= names(s.targets, ast.Store)
        if not (stored <= definite):
            continue
        # comprehension variables excluded
        loads = names(blk, ast.Load) & allv
        first_store = set()
        params = sorted(loads)
        rets = sorted(stored)
        # params must be bound before: only those loaded before being stored
        bound = set()
        need = set()
        for s in blk:
            need |= (names(s, ast.Load) & allv) - bound
            if isinstance(s, ast.Assign):
                bound |= names(s.targets, ast.Store)
        params = sorted(need)
        if 'self' in params:
            params.remove('self')
        comp_t = set()
        for s in blk:
            for x in ast.walk(s):
                if isinstance(x, ast.comprehension):
                    comp_t |= names(x.target, ast.Store)
        if comp_t:
            continue
        hname = '_extracted_helper'
        ismeth = c is not None and 'self' in a
        hargs = (['self'] if ismeth else []) + params
        hb = list(blk)
        if rets:
            rv = ast.Name(rets[0], ast.Load()) if len(rets) == 1 else ast.Tuple([ast.Name(r, ast.Load()) for r in rets], ast.Load())
            hb = hb + [ast.Return(rv)]
        h = ast.FunctionDef(name=hname, args=ast.arguments(posonlyargs=[], args=[ast.arg(x) for x in hargs], kwonlyargs=[],
                            kw_defaults=[], defaults=[]), body=hb, decorator_list=[], returns=None, type_params=[])
        callf = ast.Attribute(ast.Name('self', ast.Load()), hname, ast.Load()) if ismeth else ast.Name(hname, ast.Load())
        call = ast.Call(callf, [ast.Name(x, ast.Load()) for x in params], [])
        if rets:
            tg = ast.Name(rets[0], ast.Store()) if len(rets) == 1 else ast.Tuple([ast.Name(r, ast.Store()) for r in rets], ast.Store())
            st = ast.Assign([tg], call)
        else:
            st = ast.Expr(call)
        v[i:j] = [st]
        if ismeth:
            c.body.append(h)
        else:
            # before the function at module level
            where = c if c is not None else f
            t.body.insert(t.body.index(where), h)
        fin(t, 'extract@%s' % (blk[0].lineno,))

    # 3 invert ifs with else
    t, f, c = fresh()
    n3 = 0
    for n in ast.walk(f):
        if isinstance(n, ast.If) and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
            n3 += 1
    if n3:
        fin(t, 'invert-if')

    # 4 early exit nesting:  if c: ...; continue/return  REST  ->  if c: ... else: REST
    t, f, c = fresh()
    n4 = 0
    for v in list(blocks(f)):
        for i, s in enumerate(v):
            if isinstance(s, ast.If) and not s.orelse and s.body and isinstance(s.body[-1], (ast.Return, ast.Continue)) and i + 1 < len(v):
                s.orelse = v[i + 1:]
                del v[i + 1:]
                n4 += 1
                break
    if n4:
        fin(t, 'nest-early-exit')

    # 5 temps for call arguments / binop operands
    t, f, c = fresh()
    n5 = 0
    for v in list(blocks(f)):
        i = 0
        while i < len(v):
            s = v[i]
            if isinstance(s, (ast.Assign, ast.AugAssign)) and isinstance(s.value, (ast.BinOp, ast.Call, ast.Compare)) and n5 < 8 and rnd.random() < 0.5:
                nm = '_tmp%d' % n5
                v.insert(i, ast.Assign([ast.Name(nm, ast.Store())], s.value))
                s.value = ast.Name(nm, ast.Load())
                n5 += 1
                i += 1
            elif isinstance(s, ast.If) and n5 < 8 and rnd.random() < 0.4:
                nm = '_tmp%d' % n5
                v.insert(i, ast.Assign([ast.Name(nm, ast.Store())], s.test))
                s.test = ast.Name(nm, ast.Load())
                n5 += 1
                i += 1
            i += 1
    if n5:
        fin(t, 'temps')

    # 6 loops: for i in range(n) -> while ; for x in xs -> for i, x in enumerate(xs)
    t, f, c = fresh()
    n6 = 0
    for v in list(blocks(f)):
        i = 0
        while i < len(v):
            s = v[i]
            if isinstance(s, ast.For) and not s.orelse and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and \
                    isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range' and len(s.iter.args) == 1 and \
                    not any(isinstance(x, (ast.Continue, ast.Break)) for x in ast.walk(s)) and \
                    s.target.id not in names(s.body, ast.Store):
                k = s.target.id
                v.insert(i, ast.Assign([ast.Name(k, ast.Store())], ast.Constant(0)))
                w = ast.While(ast.Compare(ast.Name(k, ast.Load()), [ast.Lt()], [s.iter.args[0]]),
                              s.body + [ast.AugAssign(ast.Name(k, ast.Store()), ast.Add(), ast.Constant(1))], [])
                v[i + 1] = w
                n6 += 1
                i += 1
            i += 1
    if n6:
        fin(t, 'for-to-while')
    t, f, c = fresh()
    n6 = 0
    for n in ast.walk(f):
        if isinstance(n, ast.For) and isinstance(n.target, ast.Name) and not isinstance(n.iter, ast.Call):
            n.target = ast.Tuple([ast.Name('_k%d' % n6, ast.Store()), n.target], ast.Store())
            n.iter = ast.Call(ast.Name('enumerate', ast.Load()), [n.iter], [])
            n6 += 1
        elif isinstance(n, ast.For) and isinstance(n.target, ast.Tuple) and isinstance(n.iter, ast.Call) and \
                isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'enumerate' and len(n.iter.args) == 1 and \
                isinstance(n.iter.args[0], (ast.Name, ast.Attribute)) and all(isinstance(x, ast.Name) for x in n.target.elts):
            k, x = n.target.elts
            seq = n.iter.args[0]
            n.target = ast.Name(k.id, ast.Store())
            n.iter = ast.Call(ast.Name('range', ast.Load()), [ast.Call(ast.Name('len', ast.Load()), [copy.deepcopy(seq)], [])], [])
            n.body.insert(0, ast.Assign([ast.Name(x.id, ast.Store())], ast.Subscript(copy.deepcopy(seq), ast.Name(k.id, ast.Load()), ast.Load())))
            n6 += 1
    if n6:
        fin(t, 'enumerate')

    # 7 flip comparisons, de Morgan
    t, f, c = fresh()
    n7 = 0
    for n in ast.walk(f):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in (ast.Lt, ast.Gt, ast.LtE, ast.GtE):
            fl = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[type(n.ops[0])]
            n.left, n.comparators[0] = n.comparators[0], n.left
            n.ops[0] = fl()
            n7 += 1
    if n7:
        fin(t, 'flip-cmp')

    class DM(ast.NodeTransformer):
        k = 0

        def visit_If(self, n):
            self.generic_visit(n)
            if isinstance(n.test, ast.BoolOp):
                op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
                n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), x) for x in n.test.values]))
                DM.k += 1
            return n
    t, f, c = fresh()
    DM.k = 0
    DM().visit(f)
    if DM.k:
        fin(t, 'demorgan')

    # 8 commute + and *
    t, f, c = fresh()
    n8 = 0
    for n in ast.walk(f):
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mult, ast.BitAnd)) and not any(isinstance(x, (ast.List, ast.JoinedStr)) or (isinstance(x, ast.Constant) and isinstance(x.value, str)) for x in ast.walk(n)):
            n.left, n.right = n.right, n.left
            n8 += 1
    if n8:
        fin(t, 'commute')

    # 9 swap adjacent independent statements
    t, f, c = fresh()
    n9 = 0
    for v in list(blocks(f)):
        i = 0
        while i + 1 < len(v):
            s1, s2 = v[i], v[i + 1]
            if indep(s1, s2) and rnd.random() < 0.6:
                v[i], v[i + 1] = s2, s1
                n9 += 1
                i += 2
            else:
                i += 1
    if n9:
        fin(t, 'swap')

    # 10 np idioms
    t, f, c = fresh()

    class NP(ast.NodeTransformer):
        k = 0

        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'np':
                if n.func.attr in ('sum', 'min', 'max', 'argmin', 'argmax') and len(n.args) == 1 and not n.keywords and isinstance(n.args[0], (ast.Name, ast.Attribute, ast.Subscript)):
                    NP.k += 1
                    return ast.Call(ast.Attribute(n.args[0], n.func.attr, ast.Load()), [], [])
                if n.func.attr == 'sqrt' and len(n.args) == 1:
                    NP.k += 1
                    return ast.BinOp(n.args[0], ast.Pow(), ast.Constant(0.5))
            return n

        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value in (2, 2.0) and isinstance(n.left, (ast.Name, ast.Attribute)):
                NP.k += 1
                return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
            return n

        def visit_Assign(self, n):
            self.generic_visit(n)
            if isinstance(n.targets[0], ast.Tuple) and len(n.targets[0].elts) == 1 and isinstance(n.value, ast.Call) and \
                    isinstance(n.value.func, ast.Attribute) and n.value.func.attr == 'where' and len(n.value.args) == 1:
                NP.k += 1
                n.targets[0] = n.targets[0].elts[0]
                n.value.func.attr = 'flatnonzero'
            return n
    NP.k = 0
    NP().visit(f)
    if NP.k:
        fin(t, 'np-idiom')

    # 11 f-strings and guard splitting:  if a and b: S  -> if a: if b: S   (no else)
    t, f, c = fresh()
    n11 = 0
    for n in ast.walk(f):
        if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            vs = n.test.values
            n.test = vs[0]
            rest = vs[1] if len(vs) == 2 else ast.BoolOp(ast.And(), vs[1:])
            n.body = [ast.If(rest, n.body, [])]
            n11 += 1
    if n11:
        fin(t, 'split-and')

    # 12 single return variable
    t, f, c = fresh()
    n12 = 0
    for v in list(blocks(f)):
        for i in range(len(v) - 1, -1, -1):
            s = v[i]
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                v.insert(i, ast.Assign([ast.Name('_result', ast.Store())], s.value))
                s.value = ast.Name('_result', ast.Load())
                n12 += 1
    if n12:
        fin(t, 'ret-var')

    # 13 list comprehension <-> append loop
    t, f, c = fresh()
    n13 = 0
    for v in list(blocks(f)):
        i = 0
        while i < len(v):
            s = v[i]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.ListComp) and \
                    len(s.value.generators) == 1 and not s.value.generators[0].ifs:
                g = s.value.generators[0]
                nm = s.targets[0].id
                if nm in names(s.value, ast.Load):
                    i += 1
                    continue
                m = dict((x, x + '_lc') for x in names(g.target, ast.Store))
                tgt = Ren(m).visit(copy.deepcopy(g.target))
                elt = Ren(m).visit(copy.deepcopy(s.value.elt))
                v[i:i + 1] = [ast.Assign([ast.Name(nm, ast.Store())], ast.List([], ast.Load())),
                              ast.For(tgt, g.iter, [ast.Expr(ast.Call(ast.Attribute(ast.Name(nm, ast.Load()), 'append', ast.Load()), [elt], []))], [])]
                n13 += 1
                i += 2
            else:
                i += 1
    if n13:
        fin(t, 'comp-to-loop')

    # 14 extract expression helper functions
    t, f, c = fresh()
    a, loc = locals_of(f)
    cands = []
    for n in ast.walk(f):
        if isinstance(n, ast.Assign) and isinstance(n.value, (ast.BinOp, ast.Compare)) and not any(
                isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp)) for x in ast.walk(n.value)):
            cands.append(n)
    rnd.shuffle(cands)
    k14 = 0
    for n in cands[:3]:
        need = sorted((names(n.value, ast.Load) & (a | loc)))
        hn = '_expr_helper%d' % k14
        h = ast.FunctionDef(name=hn, args=ast.arguments(posonlyargs=[], args=[ast.arg(x) for x in need], kwonlyargs=[], kw_defaults=[], defaults=[]),
                            body=[ast.Return(n.value)], decorator_list=[], returns=None, type_params=[])
        n.value = ast.Call(ast.Name(hn, ast.Load()), [ast.Name(x, ast.Load()) for x in need], [])
        where = c if c is not None else f
        t.body.insert(t.body.index(where), h)
        k14 += 1
    if k14:
        fin(t, 'expr-helper')
    # 15 no-op statement
    t, f, c = fresh()
    f.body.insert(1 if len(f.body) > 1 else 0, ast.parse('_unused = None').body[0])
    f.body.insert(2 if len(f.body) > 2 else 0, ast.parse('pass').body[0])
    fin(t, 'noop')
    return out


PUREF = ('np', 'len', 'float', 'int', 'str', 'abs', 'min', 'max', 'os')


def indep(s1, s2):
    """conservative independence of two simple assignments"""
    for s in (s1, s2):
        if not isinstance(s, ast.Assign) or len(s.targets) != 1:
            return False
        for x in ast.walk(s.value):
            if isinstance(x, ast.Call):
                f = x.func
                r = f
                while isinstance(r, ast.Attribute):
                    r = r.value
                if not (isinstance(r, ast.Name) and r.id in ('np', 'len', 'float', 'int', 'abs')):
                    return False
                if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Attribute):
                    return False   # np.random...
            if isinstance(x, (ast.Lambda, ast.ListComp)):
                return False
    d1, d2 = tgt(s1.targets[0]), tgt(s2.targets[0])
    if d1 is None or d2 is None or d1 == d2:
        return False

    def reads(s):
        out = set()
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                out.add(('n', x.id))
            if isinstance(x, ast.Attribute):
                out.add(('a', x.attr))
            if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Constant):
                out.add(('a', x.slice.value))
        return out
    return d1 not in reads(s2) and d2 not in reads(s1) and d1[0] != 's' and d2[0] != 's'


def tgt(t):
    if isinstance(t, ast.Name):
        return ('n', t.id)
    if isinstance(t, ast.Attribute):
        return ('a', t.attr)
    return None
