"""Loops: every loop is replaced by an inductive summary that the tool infers and then *proves*
(initiation, consecution, trip count); nothing is unrolled except loops whose trip count is a literal."""
import re
from terms import *
import terms as T
from values import *
import values as V
import cast, engine, sums
from engine import Engine, LoopCtl, Dead, Throw, State

UNROLL = 50


def linear_in(t, v):
    """(coefficient, rest) with t = coefficient*v + rest, or None"""
    if v not in fv(t): return I(0) if t.sort == INT else R(0), t
    co, rest = {}, {}
    for m, c in monos(t).items():
        hit = None
        mm = []
        for a, e in m:
            if a is v:
                if e != 1: return None
                hit = a
            elif v in fv(a):
                if a.op == 'toreal' and a.args[0] is v and e == 1 and hit is None: hit = a
                else: return None
            else: mm.append((a, e))
        (co if hit is not None else rest)[tuple(mm)] = c
    return from_monos(co, t.sort), from_monos(rest, t.sort)


def map_apps(t, table, memo=None):
    """replace applications of the function symbols in table (name -> fn(args))"""
    if memo is None: memo = {}
    def go(x):
        r = memo.get(x)
        if r is not None: return r
        if x.op == 'app' and x.args[0] in table:
            r = table[x.args[0]](*[go(a) for a in x.args[1:]])
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


def vmap(v, f):
    """apply term function f to every term inside value v"""
    if isinstance(v, Term): return f(v)
    if isinstance(v, Struct):
        return Struct(v.cls, {n: vmap(x, f) for n, x in v.f.items()})
    if isinstance(v, Vec):
        if v.elems is not None: return Vec(v.et, [vmap(x, f) for x in v.elems])
        return Vec(v.et, None, f(v.len), vmap(v.lam, f))
    if isinstance(v, Lam):
        return Lam(v.ks, vmap(v.body, f), f(v.nc) if v.nc is not None else None)
    if isinstance(v, Ptr):
        if v.loc is None: return v
        c, p = v.loc
        return Ptr((c, tuple((a, f(b)) if isinstance(b, Term) else (a, b) for a, b in p)), f(v.null))
    if isinstance(v, MapV): return MapV(v.et, v.k, f(v.has), vmap(v.val, f))
    if isinstance(v, Conflict): return Conflict(f(v.c), vmap(v.a, f), vmap(v.b, f))
    return v


def vterms(v):
    """terms inside a value (bound index variables of contents included)"""
    if isinstance(v, Term): yield v
    elif isinstance(v, Struct):
        for x in v.f.values(): yield from vterms(x)
    elif isinstance(v, Vec):
        if v.elems is not None:
            for x in v.elems: yield from vterms(x)
        else:
            yield v.len
            yield from vterms(v.lam)
    elif isinstance(v, Lam):
        yield from vterms(v.body)
        if v.nc is not None: yield v.nc
    elif isinstance(v, Ptr):
        if v.loc is not None:
            for a, b in v.loc[1]:
                if isinstance(b, Term): yield b
            yield v.null
    elif isinstance(v, MapV):
        yield v.has
        yield from vterms(v.val)
    elif isinstance(v, Conflict):
        yield v.c
        yield from vterms(v.a)
        yield from vterms(v.b)


_symcache = {}


def syms(t):
    """names of variables and function symbols in a term"""
    r = _symcache.get(t)
    if r is None:
        s = set()
        for x in subterms(t):
            if x.op == 'var': s.add(x.args[0])
            elif x.op == 'app': s.add(x.args[0])
        r = _symcache[t] = frozenset(s)
    return r


def vsyms(v):
    s = set()
    for t in vterms(v): s |= syms(t)
    return s


_num = re.compile(r'!(\d+)')


def born_after(name, mark):
    m = _num.search(name)
    return m is not None and int(m.group(1)) >= mark


def mark():
    n = fresh('mark').args[0]
    return int(n.rsplit('!', 1)[1])


# -------------------------------------------------------------------- leaves
def lget(store, leaf):
    cell, path = leaf
    v = store[cell]
    for n, p in enumerate(path):
        if p[0] == 'pidx':
            return v.loc[1][p[1]][1]
        v = vget(v, (p,))
    return v


def lput(store, leaf, nv):
    cell, path = leaf
    if path and path[-1][0] == 'pidx':
        pp = path[:-1]
        p = vget(store[cell], pp)
        c, q = p.loc
        q = list(q)
        q[path[-1][1]] = ('i', nv)
        store[cell] = vput(store[cell], pp, Ptr((c, tuple(q)), p.null))
        return
    store[cell] = vput(store[cell], path, nv)


def diff(a, b, path, out, norm):
    """leaves at which a and b differ; norm collects paths that must be brought to generic form first"""
    if a is b or same(a, b): return
    if isinstance(a, Struct) and isinstance(b, Struct) and a.f.keys() == b.f.keys():
        for n in a.f: diff(a.f[n], b.f[n], path + (('f', n),), out, norm)
        return
    if isinstance(a, Vec) and isinstance(b, Vec):
        if a.elems is not None and b.elems is not None and len(a.elems) == len(b.elems):
            for i, (x, y) in enumerate(zip(a.elems, b.elems)): diff(x, y, path + (('i', I(i)),), out, norm)
            return
        if a.elems is not None:
            norm.append(path)
            return
        if a.len is not b.len: out.append(path + (('len', None),))
        la, lb = a.lam, b.tolam()
        if not (la is lb or (la.nc is lb.nc and same(la.body, lb.at(la.ks) if len(la.ks) == len(lb.ks) else None))):
            out.append(path + (('lam', None),))
        return
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.loc is not None and b.loc is not None and a.loc[0] == b.loc[0] \
            and len(a.loc[1]) == len(b.loc[1]) and all(x[0] == y[0] for x, y in zip(a.loc[1], b.loc[1])) and a.null is b.null:
        for n, (x, y) in enumerate(zip(a.loc[1], b.loc[1])):
            if x[1] is not y[1]:
                if isinstance(x[1], Term): out.append(path + (('pidx', n),))
                else:
                    out.append(path)
                    return
        return
    out.append(path)


def shape(v, name, ks):
    """a value of the same shape with uninterpreted parts depending on ks"""
    if isinstance(v, Term):
        return app(name, list(ks), v.sort) if ks else var(name, v.sort)
    if isinstance(v, Struct):
        if v.cls.startswith('Matrix<') and 'nrows_' in v.f and isinstance(v.f['data_'], Vec):
            r, c = shape(v.f['nrows_'], name + '.nr', ks), shape(v.f['ncols_'], name + '.nc', ks)
            i, j = fresh('i'), fresh('j')
            return Struct(v.cls, {'nrows_': r, 'ncols_': c, 'data_': Vec(v.f['data_'].et, None, r * c, Lam((i, j), app(name + '.d', list(ks) + [i, j], REAL), c))})
        return Struct(v.cls, {n: shape(x, name + '.' + n, ks) for n, x in v.f.items()})
    if isinstance(v, Vec):
        if v.elems is not None: return Vec(v.et, [shape(x, '%s.%d' % (name, i), ks) for i, x in enumerate(v.elems)])
        l = v.lam
        kk = tuple(fresh('k') for _ in l.ks)
        return Vec(v.et, None, shape(v.len, name + '.n', ks), Lam(kk, shape(l.at(kk), name + '.e', tuple(ks) + kk), l.nc))
    if isinstance(v, Lam):
        kk = tuple(fresh('k') for _ in v.ks)
        return Lam(kk, shape(v.at(kk), name, tuple(ks) + kk), v.nc)
    return v


class Shape:
    """havoced leaf: list of (symbol, keys)"""


def delta(out, x):
    """e with out = x + e and x not in e, else None"""
    if out is x: return const(0, out.sort)
    if out.op == 'ite':
        g, a, b = out.args
        if contains(g, x): return None
        da, db = delta(a, x), delta(b, x)
        if da is None or db is None: return None
        return ite(g, da, db)
    d = sub(out, x)
    if contains(d, x):
        # x may occur inside ite summands
        ms = monos(out)
        r = const(0, out.sort)
        seen = 0
        for m, c in ms.items():
            t = from_monos({m: c}, out.sort)
            if contains(t, x):
                if c == 1 and len(m) == 1 and m[0][1] == 1:
                    dd = delta(m[0][0], x)
                    if dd is None: return None
                    seen += 1
                    r = r + dd
                else: return None
            else: r = r + t
        return r if seen == 1 else None
    return d


def contains(t, x):
    return any(y is x for y in subterms(t))


def lits(g):
    if g.op == 'and': return list(g.args)
    return [] if g is TRUE else [g]


def owner(guard, tau, keys=(), strict=False):
    s = owner_(guard, tau, keys, strict)
    if s is None or tau in fv(s):
        # row and column of the iteration number: quotient and remainder of one division
        divs = {x for l in lits(guard) for x in subterms(l) if x.op in ('idiv', 'imod') and x.args[0] is tau}
        for d in divs:
            at = {}
            for l in lits(guard):
                if l.op != 'eq0' or l.args[0].sort != INT: continue
                for kind in ('idiv', 'imod'):
                    x = T.mk(kind, d.args, INT)
                    c = monos(l.args[0]).get(((x, 1),))
                    r = l.args[0] - I(int(c)) * x if c in (1, -1) else None
                    if r is not None and tau not in fv(r): at.setdefault(kind, neg(r) if c == 1 else r)
            if len(at) == 2:
                q = at['idiv'] * d.args[1] + at['imod']
                if prove(list(V._Hook.pc) + lits(guard) + keyrange(keys) + [le(I(0), tau)], eq(tau, q), timeout=1500): return q
    if s is not None and s.op == 'idiv' and cval(s.args[1]) is None:
        # the quotient itself, where the guard forces it
        for q, r in T.split_by(*s.args, True):
            if q is not I(0) and prove(list(V._Hook.pc) + lits(guard) + keyrange(keys), eq(tau, q), timeout=1500): return q
    return s


ROWLEN = [None]


def keyrange(keys):
    """a two-dimensional array is written and read at (row, column) with a column of the row"""
    return [le(I(0), keys[0]), le(I(0), keys[1]), lt(keys[1], ROWLEN[0])] if len(keys) == 2 and ROWLEN[0] is not None else []


def owner_(guard, tau, keys=(), strict=False):
    """index tau as a function of the other variables, forced by the guard: (expression, rest) or None"""
    best = None
    for l in lits(guard):
        if l.op == 'eq0' and l.args[0].sort == INT:
            li = linear_in(l.args[0], tau)
            if li is None: continue
            c, r = li
            k = cval(c)
            if k == 0: continue
            if k is not None and abs(k) == 1:
                return neg(r) if k == 1 else r
            # c*tau + r = 0
            if k is not None:
                best = idiv(neg(r), I(k)) if k > 0 else idiv(r, I(-k))
            else:
                r, c = (neg(r), c) if not neg_lead(c) else (r, neg(c))
                best = idiv(r, c)
                # r = key - j with 0 <= j < c: the quotient is that of key alone
                for key in keys:
                    ms = monos(r)
                    if ms.get(((key, 1),)) == 1:
                        j = key - r
                        if j is not I(0) and key not in fv(j) and prove(V._Hook.pc, and_(le(I(0), j), lt(j, c)), timeout=1000): best = idiv(key, c)
    if best is not None: return best
    # interval [n*tau, n*tau + n)
    ge = [l.args[0] for l in lits(guard) if l.op == 'ge0' and l.args[0].sort == INT and tau in fv(l.args[0])]
    for p in ge:
        lp = linear_in(p, tau)
        if lp is None: continue
        c, r = lp
        k = cval(c)
        n = neg(c)
        if k is not None and k >= 0: continue
        if k is None and not neg_lead(c): continue
        # p = r - n*tau >= 0 ; want q = n*tau + n - 1 - r' >= 0 with r - r' = 0
        for q in ge:
            if q is p: continue
            lq = linear_in(q, tau)
            if lq is None or lq[0] is not n: continue
            if strict and add(r, lq[1]) is not n - 1: continue
            return idiv(r, n)
    return None


def neg_lead(c):
    ms = monos(c)
    return all(v < 0 for v in ms.values())


def write_clauses(body, H):
    """[(guard, value)] for the writes in an array body; H: the unchanged element"""
    out = []
    def walk(t, g):
        if t is H: return
        if t.op == 'ite':
            walk(t.args[1], and_(g, t.args[0]))
            walk(t.args[2], and_(g, not_(t.args[0])))
            return
        out.append((g, t))
    def walkb(t, g):
        # boolean element: not in ite form
        out.append((TRUE, t))
    if body.sort == BOOL:
        if body is not H: walkb(body, TRUE)
    else: walk(body, TRUE)
    return out


def small(h):
    return h.op != 'forall' and all(x.sort in (INT, BOOL) and x.op not in ('app', 'sum', 'forall', 'ite') for x in subterms(h))


def abstract(q):
    """q with everything but case distinctions and integer conditions replaced by fresh symbols (one per term)"""
    names = {}
    def nm(t):
        r = names.get(t)
        if r is None: r = names[t] = fresh('ab', t.sort) if t.sort != BOOL else eq0_fresh()
        return r
    def eq0_fresh(): return eq(fresh('ab'), I(0))
    def num(t):
        if t.op == 'const': return t
        if t.op == 'ite': return ite(boo(t.args[0]), num(t.args[1]), num(t.args[2]))
        if t.op == 'poly':
            rest, out = {}, const(0, t.sort)
            for m, c in monos(t).items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'ite': out = add(out, mul(const(c, t.sort), num(m[0][0])))
                else: rest[m] = c
            if len(rest) == len(monos(t)): return nm(t)
            return add(out, num(from_monos(rest, t.sort))) if rest else out
        return nm(t)
    def boo(t):
        if t is TRUE or t is FALSE: return t
        if t.op in ('and', 'or', 'not'): return rebuild(t, boo)
        if t.op == 'eq0' and t.args[0].sort == REAL: return eq(num(t.args[0]), R(0))
        if small(t): return t
        return nm(t)
    return boo(q)


def case_prove(pc, q, vs, n, depth=0):
    """proof by cases on the equations v == e (v in vs) that occur as conditions in q"""
    sm = [h for h in pc if small(h)]
    if n is not None: q = sums.divnorm(q, n, sm)
    if q is TRUE: return True
    if prove(sm, abstract(q), timeout=500): return True
    if depth < 40:
        todo, seen = [q], set()
        while todo:
            x = todo.pop(0)
            if x in seen: continue
            seen.add(x)
            if x.op == 'eq0' and x.args[0].sort == INT and x is not q:
                for v in sorted(fv(x) - {n} if n is not None else vs & fv(x), key=lambda y: (y not in vs, y.args[0])):
                    li = linear_in(x.args[0], v)
                    k = cval(li[0]) if li is not None else None
                    if k is None or abs(k) != 1: continue
                    e = neg(li[1]) if k == 1 else li[1]
                    mp = {v: e}
                    if not case_prove([subst(h, mp) for h in pc], subst(q, mp), vs - {v}, n, depth + 1): return False
                    return case_prove(pc + [not_(x)], replace_terms(q, {x: FALSE}), vs, n, depth + 1)
            if x.op == 'poly': todo += [a for m, c in x.args for a, e in m]
            else: todo += [a for a in x.args if isinstance(a, Term)]
    return bool(prove(pc, q, timeout=6000))


def tidy_lit(l):
    """0 <= r +- idiv(x, c) without the division, and bounds of remainders, for literals c > 0"""
    if l.op != 'ge0' or l.args[0].sort != INT: return l
    p = l.args[0]
    for m, co in monos(p).items():
        if len(m) != 1 or m[0][1] != 1 or m[0][0].op != 'idiv': continue
        d = m[0][0]
        x, c = d.args
        n = cval(c)
        if n is None or n <= 0: continue
        if co == -n:
            r = p - (x - c * d)
            if cval(r) is not None and cval(r) >= 0: return TRUE
        if co == n:
            r = p - (c - 1 - x + c * d)
            if cval(r) is not None and cval(r) >= 0: return TRUE
        rest = p - I(int(co)) * d
        if any(y is d for y in subterms(rest)): continue
        if co == 1: return tidy_lit(le(I(0), x + c * rest))
        if co == -1: return tidy_lit(le(I(0), c * rest + c - 1 - x))
    return l


def tidy(t, true=frozenset()):
    if not isinstance(t, Term): return t
    if t.op == 'ite':
        c = tidy(t.args[0])
        c = and_(*[l for l in lits(c) if l not in true]) if c.op == 'and' or c in true else c
        if c is TRUE: return tidy(t.args[1], true)
        return ite(c, tidy(t.args[1], true | frozenset(lits(c))), tidy(t.args[2], true))
    if t.op == 'ge0': return tidy_lit(t)
    if t.op in ('and', 'or', 'not'): return rebuild(t, tidy)
    return t


class NoForm(Exception): pass


def resolve_divs(v, facts):
    """quotients and remainders that are evident under the facts: (q*n + r)/n = q for 0 <= r < n"""
    if not isinstance(v, Term): return v
    eqs = T.equalities(list(V._Hook.pc) + facts)
    for _ in range(6):
        mp = {}
        for x in subterms(v):
            if x.op not in ('idiv', 'imod') or cval(x.args[1]) is not None or fbv(x): continue
            cs = T.split_by(*x.args, True)
            if eqs: cs += T.split_by(subst(x.args[0], eqs), subst(x.args[1], eqs), True)
            for q, r in cs:
                if r is x.args[0]: continue
                # truncation is the floor only for a dividend that is not negative
                if prove(list(V._Hook.pc) + facts, and_(le(I(0), q), le(I(0), r), lt(r, x.args[1])), timeout=1500):
                    mp[x] = q if x.op == 'idiv' else r
                    break
        if not mp: return v
        w = replace_terms(v, mp)
        if w is v: return v
        v = w
    return v


def closed_array(keys, H, body, base, tau, hname):
    """closed form t -> Term (element after t iterations) of an array leaf"""
    cl = write_clauses(body, H)
    if not cl: return lambda t: base
    kr = keyrange(keys)
    # a condition common to all writes that determines the iteration: one owner for every slot
    common = [l for l in lits(cl[0][0]) if all(l in lits(g) for g, v in cl[1:])]
    if common and all(set(map(id, [x for x in subterms(v) if x.op == H.op and x.args[:1] == H.args[:1]])) <= {id(H)} for g, v in cl):
        s = owner(and_(*common), tau, keys, True)
        if s is not None and tau not in fv(s) and not any(hname in syms(l) for l in common):
            X = subst(body, {tau: s})
            X = replace_terms(X, {subst(H, {tau: s}): base})
            if hname not in syms(X):
                g = subst(and_(*common), {tau: s})
                if len(keys) == 2: X, g = resolve_divs(X, [le(I(0), s)] + kr), resolve_divs(g, [le(I(0), s)] + kr)
                return lambda t: tidy(ite(and_(le(I(0), s), lt(s, t), g), X, base))
    infos = []
    for g, v in cl:
        if hname in syms(g): raise NoForm('guard reads the array')
        s = owner(g, tau, keys)
        infos.append((g, v, s))
    if any(s is None for g, v, s in infos):
        # same slot in many iterations
        if all(hname in syms(v) for g, v, s in infos):
            d = delta(body, H)
            if d is None or hname in syms(d): raise NoForm('update')
            return lambda t: base + sum_body(t, *_bind(d, tau))
        if len(infos) == 1:
            g, v, s = infos[0]
            if hname in syms(v): raise NoForm('update')
            if tau in fv(g): raise NoForm('conditional overwriting')
            return lambda t: ite(and_(g, lt(I(0), t)), subst(v, {tau: t - 1}), base)
        if all(s is None for g, v, s in infos) and all(tau not in fv(g) and hname not in syms(v) for g, v, s in infos):
            def f(t):
                r = base
                for g, v, s in infos:
                    r = ite(and_(g, lt(I(0), t)), subst(v, {tau: t - 1}), r)
                return r
            return f
        raise NoForm('mixed writes')

    def form(t, prev=None):
        cond, own, val = FALSE, None, base
        for g, v, s in infos:
            gs = subst(g, {tau: s})
            vs = subst(v, {tau: s})
            if len(keys) == 2: gs = resolve_divs(gs, [le(I(0), s)] + kr)
            if len(keys) == 2: vs = resolve_divs(vs, [le(I(0), s)] + lits(gs) + kr)
            if hname in syms(vs):
                kk = keys
                vs = map_apps(vs, {hname: lambda *a: _rd(a, prev, s)})
            c = and_(le(I(0), s), lt(s, t), gs)
            if own is None:
                cond, own, val = c, s, ite(c, vs, val)
            else:
                newer = c if own is s else and_(c, or_(not_(cond), le(own, s)))
                val = ite(newer, vs, val)
                own = ite(newer, s, own)
                cond = or_(cond, c)
        return val

    def _rd(a, prev, s):
        mp = dict(zip(keys, a))
        if prev is None: return subst(base, mp)
        return subst(prev(s), mp)

    return form


def _bind(d, tau):
    k = fresh('s')
    return k, subst(d, {tau: k})


# -------------------------------------------------------------------- the mixin
def conjuncts(n):
    while n.get('kind') in ('ParenExpr', 'ExprWithCleanups'): n = n['inner'][0]
    if n.get('kind') == 'BinaryOperator' and n.get('opcode') == '&&': return conjuncts(n['inner'][0]) + conjuncts(n['inner'][1])
    return [n]


class Loops:
    def s_ForStmt(self, st, n, fr):
        init, cvar, cond, inc, body = (n['inner'] + [{}] * 5)[:5]
        if init.get('kind'): st = self.stmt(st, init, fr)
        if cvar.get('kind'): raise Unsupported('condition variable')
        if hasattr(self.fold, 'over_for'):
            r = self.fold.over_for(self, st, fr, init, cond, inc, body)
            if r is not None: return r
        return self.loop(st, fr, cond if cond.get('kind') else None, inc if inc.get('kind') else None, [body])

    def s_WhileStmt(self, st, n, fr):
        inner = n['inner']
        if len(inner) != 2: raise Unsupported('condition variable')
        if self.fold is not None:
            r = self.fold.over_lines(self, st, fr, inner[0], inner[1])
            if r is not None: return r
        return self.loop(st, fr, inner[0], None, [inner[1]])

    def s_DoStmt(self, st, n, fr):
        body, cond = n['inner']
        ctl = LoopCtl()
        fr.loops.append(ctl)
        r = self.stmt(st, body, fr)
        fr.loops.pop()
        if ctl.breaks: raise Unsupported('break in do loop')
        for c in ctl.continues:
            r = c if r is None else self.merge_states(self.distinguish(c, r), c, r)
        if r is None: return None
        return self.loop(r, fr, cond, None, [body])

    def s_CXXForRangeStmt(self, st, n, fr):
        parts = [c for c in n['inner']]
        # [init] range begin end cond inc loopvar body
        parts = parts[-7:]
        rng, beg, end, cond, inc, lv_, body = parts
        if n['inner'][0].get('kind') and len(n['inner']) == 8: st = self.stmt(st, n['inner'][0], fr)
        if self.fold is not None:
            r = self.fold.over_range(self, st, fr, rng, lv_, body)
            if r is not None: return r
        h = self.ext.range_for(self, st, n, fr, rng, lv_, body)
        if h is not None: return h[0]
        for x in (rng, beg, end):
            if x.get('kind'): st = self.stmt(st, x, fr)
        return self.loop(st, fr, cond, inc, [lv_, body])

    # ---------------------------------------------------------------- execution of one iteration
    def iteration(self, st, fr, cond, inc, stmts, assume_cond=True):
        """returns (continuing state, break states, return outcomes)"""
        if cond is not None and assume_cond:
            c = self.truth(st, cond, fr)
            if c is FALSE: return None, [], []
            st.assume(c)
        ctl = LoopCtl()
        fr.loops.append(ctl)
        nret = len(fr.returns)
        r = st
        try:
            for s in stmts:
                r = self.stmt(r, s, fr)
                if r is None: break
        finally:
            fr.loops.pop()
        for c in ctl.continues:
            r = c if r is None else self.merge_states(self.distinguish(c, r), c, r)
        rets = fr.returns[nret:]
        del fr.returns[nret:]
        if r is not None and inc is not None:
            self.rv_any(r, inc, fr)
        return r, ctl.breaks, rets

    def loop(self, st, fr, cond, inc, stmts):
        its = [lv for lv in set(fr.env.values()) if isinstance(lv, tuple) and not lv[1] and getattr(st.store.get(lv[0]), 'whole', False)]
        if len(its) == 1: return self.map_loop(st, fr, cond, inc, stmts, its[0])
        breaks = []
        it = 0
        limit = UNROLL
        cur = st
        while cur is not None:
            probe = cur.fork()
            self.quiet += 1
            nthr = len(self.throws)
            try:
                c = self.truth(probe, cond, fr) if cond is not None else TRUE
            finally:
                self.quiet -= 1
                del self.throws[nthr:]
            if c is not TRUE and c is not FALSE:
                V._Hook.pc = cur.pc
                if it > 0 and it < 9 and self.known(cur, c): c = TRUE
                elif self.known(cur, not_(c)): c = FALSE
            if c is FALSE:
                if cond is not None: self.truth(cur, cond, fr)
                break
            if c is TRUE and it < limit and not (cond is None and self.loop_candidates):
                r, b, rets = self.iteration(cur, fr, cond, inc, stmts)
                breaks += b
                fr.returns += rets
                cur = r
                it += 1
                continue
            cur, b = self.summarise(cur, fr, cond, inc, stmts)
            breaks += b
            break
        res = cur
        for b in breaks:
            res = b if res is None else self.merge_states(self.distinguish(b, res), b, res)
        if res is None: return None
        st.become(res)
        return st

    # ---------------------------------------------------------------- all elements of a map
    def map_loop(self, st, fr, cond, inc, stmts, itlv):
        """the body runs once for every key and may change the element at that key, in a way that depends on it alone"""
        it = st.store[itlv[0]]
        m0 = self.peek(st, it.maplv)
        s = st.fork()
        s.assume(m0.has_at(it.key))
        s.assume(it.valid)
        before = dict(s.store)
        r, brk, rets = self.iteration(s, fr, cond, inc, stmts)
        if r is None or brk or rets: raise Unsupported('loop over a map that stops early')
        m1 = self.peek(r, it.maplv)
        for cell in before:
            if cell == itlv[0]: continue
            a, b = before[cell], r.store[cell]
            if a is b: continue
            if cell == it.maplv[0] and vput(b, it.maplv[1], m0) is not None and same(a, vput(b, it.maplv[1], m0)): continue
            raise Unsupported('loop over a map changes %s' % leafname((cell, ())))
        k, o = fresh('mk', 'Str'), fresh('other', 'Str')
        if m1 is not m0:
            s2 = st.fork(ne(o, it.key))
            a, b = self.unconflict(s2, m0.at(o)), self.unconflict(s2, m1.at(o))
            if not same(a, b) or not self.known(s2, eq(m0.has_at(o), m1.has_at(o))): raise Unsupported('loop over a map changes other elements')
            new = m1.at(it.key)
            new = vsubst(self.unconflict(r, new), {it.key: k})
            self.put(st, it.maplv, MapV(m0.et, k, m0.has_at(k), vmerge(m0.has_at(k), new, m0.at(k))))
        st.store[itlv[0]] = Opaque('end of a map')
        return st

    # ---------------------------------------------------------------- summaries
    def trial(self, base, store, tau, facts, fr, cond, inc, stmts):
        s = base.fork()
        s.store = dict(store)
        for f in facts: s.assume(f)
        self.quiet += 1
        nthr = len(self.throws)
        try:
            try:
                r, b, rets = self.iteration(s, fr, cond, inc, stmts)
            except Dead:
                return None, [], []
        finally:
            self.quiet -= 1
            del self.throws[nthr:]
        return r, b, rets

    def summarise(self, st, fr, cond, inc, stmts):
        """locations that are uninitialised before the loop are first taken to be so at the start of every iteration
        (and after the loop); when the body does not bear that out they are solved like any other location"""
        nthr, nob, nret = len(self.throws), len(self.obls), len(fr.returns)
        cs = conjuncts(cond) if cond is not None and not self.loop_candidates else []
        for j in reversed(range(len(cs))) if len(cs) > 1 else ():
            # a part of the condition that holds on entry may as well be tested at the end of every iteration
            if not self.holds_now(st, cs[j], fr): continue
            rest = cs[:j] + cs[j + 1:]
            if not any(x.get('kind') == 'BinaryOperator' and x.get('opcode') in ('<', '<=', '>', '>=', '!=') for x in rest): continue
            c2 = rest[0] if len(rest) == 1 else {'kind': 'Py', 'fn': lambda e, s, f, rest=rest: and_(*[e.truth(s, x, f) for x in rest])}
            b2 = {'kind': 'Py', 'fn': lambda e, s, f, part=cs[j]: e.body_then_test(s, f, inc, stmts, part)}
            try: return self.summarise(st, fr, c2, None, [b2])
            except Unsupported: del self.throws[nthr:], self.obls[nob:], fr.returns[nret:]
        dead = []
        try:
            return self.summarise1(st, fr, cond, inc, stmts, dead)
        except Unsupported:
            if not dead and not self.loop_candidates: raise
            del self.throws[nthr:], self.obls[nob:], fr.returns[nret:]
            if self.loop_candidates: return self.invariant(st, fr, cond, inc, stmts)
            return self.summarise1(st, fr, cond, inc, stmts, None)

    def holds_now(self, st, part, fr):
        s = st.fork()
        self.quiet += 1
        nthr, nob = len(self.throws), len(self.obls)
        try: return self.known(s, self.truth(s, part, fr)) and not self.changed(st, s)
        except Dead: return False
        finally:
            self.quiet -= 1
            del self.throws[nthr:], self.obls[nob:]

    def body_then_test(self, st, fr, inc, stmts, part):
        """body; increment; if (!part) break; - so part holds at the start of every iteration"""
        c = self.truth(st, part, fr)
        st.assume(c)
        x = v = None
        if c.op == 'var': x, v = c, TRUE
        elif c.op == 'not' and c.args[0].op == 'var': x, v = c.args[0], FALSE
        elif c.op == 'eq0':
            vs = fv(c.args[0])
            if len(vs) == 1:
                x = next(iter(vs))
                v = x - c.args[0]
                if cval(v) is None: v = x + c.args[0]
                if cval(v) is None: x = None
        if x is not None:
            for cell in list(st.store):
                if st.store[cell] is x: st.store[cell] = v
        ctl = LoopCtl()
        fr.loops.append(ctl)
        r = st
        try:
            for s in stmts:
                r = self.stmt(r, s, fr)
                if r is None: break
        finally: fr.loops.pop()
        for c in ctl.continues:
            r = c if r is None else self.merge_states(self.distinguish(c, r), c, r)
        out = fr.loops[-1].breaks
        out += ctl.breaks
        if r is None: return None
        if inc is not None: self.rv_any(r, inc, fr)
        c = self.truth(r, part, fr)

        def stop(s):
            out.append(s)
            return None
        return self.branch(r, c, lambda s: s, stop)

    # ---------------------------------------------------------------- loops with invariants from templates
    def invariant(self, st, fr, cond, inc, stmts):
        """the strongest conjunction of candidate facts (templates given by the contract, instantiated with whatever scalars
        the loop changes) that holds on entry and is kept by every iteration; termination by a ranking difference"""
        base = st.fork()
        mod, head, fresh_ = [], None, {}
        for attempt in range(12):
            store = dict(base.store)
            for leaf in mod:
                if leaf not in fresh_:
                    old = lget(base.store, leaf)
                    fresh_[leaf] = old if old is UNINIT else shape(old, 'J%s!%d' % (leafname(leaf), int(mark())), ())
                if fresh_[leaf] is not UNINIT: lput(store, leaf, fresh_[leaf])
            r, brk, rets = self.trial(base, store, None, [], fr, cond, inc, stmts)
            new = []
            for o in ([r] if r is not None else []) + brk:
                for cell, v in store.items():
                    if cell in o.store and o.store[cell] is not v:
                        l, nn = [], []
                        diff(v, o.store[cell], (), l, nn)
                        if nn: raise Unsupported('loop with invariant: shape change')
                        new += [(cell, p) for p in l if (cell, p) not in mod and (cell, p) not in new]
            if not new: break
            mod += new
        else: raise Unsupported('loop with invariant: modified locations')
        ints = [l for l in mod if isinstance(fresh_[l], Term) and fresh_[l].sort == INT]
        def at(state, l):
            v = lget(state.store, l)
            return v if isinstance(v, Term) else None
        cands = self.loop_candidates(self, base, len(ints))
        def inst(c, vals): return c(*vals)
        entry = [at(base, l) for l in ints]
        self.quiet += 1
        try:
            good = [c for c in cands if None not in entry and self.known(base, inst(c, entry))]
            while True:
                h = base.fork()
                facts = [inst(c, [fresh_[l] for l in ints]) for c in good]
                r, brk, rets = self.trial(base, store, None, facts, fr, cond, inc, stmts)
                if r is None: break
                outv = [at(r, l) for l in ints]
                keep = [c for c in good if None not in outv and self.known(r, inst(c, outv))]
                if len(keep) == len(good): break
                good = keep
            # ranking: a difference that is nonnegative at the start of an iteration and falls
            if r is not None:
                fv_ = [fresh_[l] for l in ints]
                outv = [at(r, l) for l in ints]
                ranks = [(a, b) for a, b in zip(fv_, outv)] + [(neg(a), neg(b)) for a, b in zip(fv_, outv)]
                ranks += [(fv_[i] - fv_[j], outv[i] - outv[j]) for i in range(len(ints)) for j in range(len(ints)) if i != j]
                bounds = [I(0)] + [neg(x) for x in self.loop_bounds(self, base)]
                if not any(self.known(r, and_(le(lo, a), lt(b, a))) for a, b in ranks for lo in bounds):
                    raise Unsupported('loop with invariant: no ranking function found')
        finally:
            self.quiet -= 1
        h = base.fork()
        h.store = dict(store)
        for f in facts: h.assume(f)
        s = h.fork()
        try:
            r, brk, rets = self.iteration(s, fr, cond, inc, stmts)
        except Dead:
            r, brk, rets = None, [], []
        if any(len(x.trace) != len(h.trace) for x in ([r] if r is not None else []) + brk): raise Unsupported('loop with invariant: external operations')
        for rs, v in rets: fr.returns.append((rs, v))
        if cond is None: return None, brk
        c = self.truth(h, cond, fr)
        h.assume(not_(c))
        if not self.feasible(h): return None, brk
        return h, brk

    def summarise1(self, st, fr, cond, inc, stmts, dead):
        base = st.fork()
        tau = fresh('t')
        nonneg = le(I(0), tau)
        m0 = mark()
        mod = []
        closed = {}
        free = {}
        N = None
        C = None
        # ---- which leaves change, and how
        for attempt in range(12):
            store = dict(base.store)
            hv = {}
            for leaf in mod:
                if leaf in closed:
                    lput(store, leaf, closed[leaf](tau))
                    continue
                old = lget(base.store, leaf)
                if dead is not None and old is UNINIT:
                    if leaf not in dead: dead.append(leaf)
                    closed[leaf] = lambda t: UNINIT
                    lput(store, leaf, UNINIT)
                    continue
                h = shape(old, 'H%s!%d' % (leafname(leaf), int(mark())), ())
                hv[leaf] = h
                if h is not old: lput(store, leaf, h)
            facts = [nonneg]
            # counters that start nonnegative are tried as staying so (what is found is proved without this)
            for leaf, h in hv.items():
                old = lget(base.store, leaf)
                if isinstance(h, Term) and h.sort == INT and h.op == 'var' and isinstance(old, Term) and self.known(base, le(I(0), old)): facts.append(le(I(0), h))
            if N is not None: facts.append(lt(tau, N))
            r, brk, rets = self.trial(base, store, tau, facts, fr, cond, inc, stmts)
            if r is None and not brk:
                # body never completes: at most one (partial) iteration
                if attempt == 0 and r is None: pass
            new, norm = [], []
            outs = ([r] if r is not None else []) + brk
            for o in outs:
                for cell, v in store.items():
                    if cell in o.store and o.store[cell] is not v:
                        l, nn = [], []
                        diff(v, o.store[cell], (), l, nn)
                        new += [(cell, p) for p in l if (cell, p) not in mod and (cell, p) not in new]
                        norm += [(cell, p) for p in nn]
            if norm:
                for cell, p in norm:
                    base.store[cell] = vput(base.store[cell], p, vget(base.store[cell], p).generic()) if p else base.store[cell].generic()
                mod = [l for l in mod if l not in new]
                closed = {}
                N = C = None
                continue
            if new:
                # a whole-value leaf subsumes finer ones
                for l in new:
                    if any(p[0] == 'pidx' for p in l[1][:-1]): raise Unsupported('loop: pointer leaf')
                    mod = [x for x in mod if not (x[0] == l[0] and x[1][:len(l[1])] == l[1])]
                    mod.append(l)
                closed = {}
                free.clear()
                N = C = None
                continue
            if r is None:
                break
            # ---- solve
            progress = False
            before = dict(closed)
            for leaf in list(mod):
                if leaf in closed: continue
                old = lget(base.store, leaf)
                out = lget(r.store, leaf)
                while isinstance(out, Term) and out.op == 'ite' and not contains(out.args[0], hv[leaf]):
                    if self.known(r, out.args[0]): out = out.args[1]
                    elif self.known(r, not_(out.args[0])): out = out.args[2]
                    else: break
                f = self.solve_leaf(leaf, old, hv[leaf], out, tau, before, hv, mod, m0)
                if f is not None:
                    closed[leaf] = f
                    progress = True
            if N is None:
                c = self.cond_term(base, store, hv, closed, tau, fr, cond)
                if c is not None:
                    N, C = self.trip(base, c, tau)
                    progress = True
            if all(l in closed for l in mod) and N is not None:
                break
            if not progress and not self.loop_candidates and self.abstract_leaf(base, mod, closed, hv, free): continue
            if not progress:
                bad = [leafname(l) for l in mod if l not in closed]
                raise Unsupported('loop: no closed form for %s' % (', '.join(bad) or 'trip count'))
        else:
            raise Unsupported('loop summary did not converge')
        # ---- prove initiation, consecution and trip count with the inferred forms
        self.quiet += 1
        try:
            for leaf in mod:
                if leaf in closed and not self.same_value(base, closed[leaf](I(0)), lget(base.store, leaf)):
                    raise Unsupported('loop: initiation of %s' % leafname(leaf))
        finally:
            self.quiet -= 1
        store = dict(base.store)
        for leaf in mod:
            if leaf in closed: lput(store, leaf, closed[leaf](tau))
        s = base.fork()
        s.store = store
        s.assume(nonneg)
        if N is not None: s.assume(lt(tau, N))
        c = self.truth(s, cond, fr) if cond is not None else TRUE
        if N is not None and C is not None and not self.known(s, c):
            raise Unsupported('loop: condition not implied by the trip count')
        s.assume(c)
        n0 = len(s.pc)
        npc = len(base.pc)
        tr0 = len(s.trace)
        nthr = len(self.throws)
        try:
            r, brk, rets = self.iteration(s, fr, None, inc, stmts)
        except Dead:
            r, brk, rets = None, [], []
        P = TRUE
        if r is not None:
            for leaf in mod:
                a = lget(r.store, leaf)
                if dead is not None and leaf in dead: continue
                e = closed[leaf](tau + 1)
                if leaf in free:
                    # definition of the sequence of values the location takes
                    r.assume(eq(app(free[leaf], [tau + 1], a.sort), a))
                    continue
                if not self.same_value(r, e, a):
                    raise Unsupported('loop: consecution of %s' % leafname(leaf))
            for cell, v in base.store.items():
                if cell in r.store and r.store[cell] is not store[cell]:
                    l, nn = [], []
                    diff(store[cell], r.store[cell], (), l, nn)
                    for p in l:
                        if (cell, p) not in mod and not self.same_value(r, vget(store[cell], p) if p and p[-1][0] != 'pidx' else None, vget(r.store[cell], p) if p and p[-1][0] != 'pidx' else None):
                            raise Unsupported('loop: late modification')
            exp = [x for x in r.pc if x not in base.pc and x is not nonneg and (N is None or x is not lt(tau, N)) and x is not c]
            exp = [x for x in exp if not self.known(base.fork(and_(nonneg, lt(tau, N), c)), x, timeout=400)]
            P = and_(*exp) if exp else TRUE
        ev = r.trace[tr0:] if r is not None else []
        P = self.skolem(P, m0, tau)
        k = fresh('q')
        # early exits happen at an iteration before which every iteration completed
        prev = forall_(k, implies(and_(le(I(0), k), lt(k, tau)), subst(P, {tau: k}))) if P is not TRUE else TRUE
        for t in self.throws[nthr:]: t.state.assume(prev)
        for b in brk:
            b.assume(prev)
            if ev: raise Unsupported('loop: trace with break')
        for rs, v in rets:
            rs.assume(prev)
            fr.returns.append((rs, v))
        if r is None:
            # no iteration completes normally: the loop either does not run or leaves early
            done = base.fork()
            c0 = self.truth(done, cond, fr) if cond is not None else TRUE
            if self.known(done, c0): return None, brk
            done.assume(not_(c0))
            return done, brk
        done = base.fork()
        for leaf in mod: lput(done.store, leaf, closed[leaf](N))
        if P is not TRUE:
            done.assume(forall_(k, implies(and_(le(I(0), k), lt(k, N)), subst(P, {tau: k}))))
        if cond is not None:
            c = self.truth(done, cond, fr)
            if C is not None and not self.known(done, not_(c)):
                raise Unsupported('loop: exit condition')
            done.assume(not_(c))
        else:
            return None, brk
        if ev:
            if len(ev) and cval(N) is None:
                done.trace.append(('loop', N, tau, ev))
        return done, brk

    def abstract_leaf(self, base, mod, closed, hv, free):
        """a scalar without closed form is given by an unspecified sequence of values, one per iteration"""
        for leaf in mod:
            old = lget(base.store, leaf)
            if leaf in closed or not isinstance(old, Term) or old.sort not in (INT, REAL, BOOL): continue
            nm = fresh('seq').args[0]
            free[leaf] = nm
            closed[leaf] = lambda t, nm=nm, old=old: old if t is I(0) or cval(t) == 0 else ite(eq(t, I(0)), old, app(nm, [t], old.sort))
            return True
        return False

    def same_value(self, st, e, a):
        """proof that two values are equal (no obligation is recorded)"""
        if e is None or a is None: return e is a
        if e is a or same(e, a): return True
        V._Hook.pc = st.pc
        if isinstance(e, Term) and isinstance(a, Term):
            if e.sort != a.sort: return False
            return self.same_term(st, e, a)
        if isinstance(e, Struct) and isinstance(a, Struct):
            return all(self.same_value(st, e.f[n], a.f[n]) for n in e.f)
        if isinstance(e, Lam) and isinstance(a, Lam):
            e, a = Vec('', None, I(0), e), Vec('', None, I(0), a)
        if isinstance(e, Vec) and isinstance(a, Vec):
            if e.elems is not None and a.elems is not None and len(e.elems) == len(a.elems):
                return all(self.same_value(st, x, y) for x, y in zip(e.elems, a.elems))
            if e.len is not a.len and not prove(st.pc, eq(e.len, a.len)): return False
            le_, la = e.tolam(), a.tolam()
            if le_.nc is not None and la.nc is not None and le_.nc is not la.nc:
                if prove(st.pc, eq(le_.nc, la.nc)): la = Lam(la.ks, la.body, le_.nc)
            ks, A, B, nc = lam_pair(le_, la)
            s = st.fork()
            # indices are within the length when it is known
            if cval(e.len) != 0 or True:
                if nc is not None:
                    for x in (le(I(0), ks[0]), le(I(0), ks[1]), lt(ks[1], nc)): s.assume(x)
                else: s.assume(le(I(0), ks[0]))
            return self.same_value(s, A, B)
        if isinstance(e, Ptr) and isinstance(a, Ptr):
            if e.loc is None or a.loc is None: return e.loc is a.loc
            if e.loc[0] != a.loc[0] or len(e.loc[1]) != len(a.loc[1]): return False
            return all(x[1] is y[1] or (isinstance(x[1], Term) and isinstance(y[1], Term) and prove(st.pc, eq(x[1], y[1]))) for x, y in zip(e.loc[1], a.loc[1]))
        if isinstance(e, Opaque) or isinstance(a, Opaque): return isinstance(e, Opaque) and isinstance(a, Opaque)
        return False

    def same_term(self, st, e, a):
        q = eq(e, a)
        if q is TRUE: return True
        ds = sums.divisors(q)
        if len(ds) == 1 and ds[0] in fv(q) | {ds[0]}:
            # indices k divided by n: k = n*b + r
            n = ds[0]
            pc = list(st.pc)
            mp = {}
            for x in {x.args[0] for x in subterms(q) if x.op in ('idiv', 'imod') and x.args[1] is n}:
                if x.op == 'var' and prove(pc, and_(le(I(0), x), le(I(1), n)), timeout=1000):
                    b, r = fresh('b'), fresh('r')
                    mp[x] = n * b + r
                    pc += [le(I(0), b), le(I(0), r), lt(r, n), eq(x, n * b + r)]
            if mp:
                q2 = sums.divnorm(subst(q, mp), n, pc)
                q2 = sums.divnorm(q2, n, pc)
                if q2 is TRUE: return True
                pc2 = [h for h in pc if h.op != 'forall']
                vs = set()
                for v in mp.values(): vs |= {x for x in fv(v) if x is not n}
                if case_prove(pc2, q2, vs, n): return True
        if prove(st.pc, q, timeout=6000): return True
        vs = {x for x in fv(q) if x.sort == INT and '!' in x.args[0]}
        if any(x.op in ('idiv', 'imod') for x in subterms(q)):
            def finish(pc, q):
                if prove(pc, q, timeout=1500) or sums.cases_prove(pc, q, [24]): return True
                return case_prove(pc, q, {x for x in fv(q) if x.sort == INT and '!' in x.args[0]}, None)
            if sums.div_prove(st.pc, q, finish): return True
        return case_prove([h for h in st.pc if h.op != 'forall'], q, vs, None)

    def skolem(self, t, m0, tau):
        """symbols introduced inside the body become functions of the iteration"""
        tn = tau.args[0]
        names = [n for n in syms(t) if born_after(n, m0) and n != tn and not n.startswith(('q!', 's!', 'k!', 'i!', 'j!'))]
        if not names: return t
        mp, ap = {}, {}
        for x in list(subterms(t)):
            if x.op == 'var' and x.args[0] in names: mp[x] = app(x.args[0] + '@', [tau], x.sort)
            if x.op == 'app' and x.args[0] in names:
                ap[x.args[0]] = (lambda nm, so: (lambda *a: app(nm + '@', list(a) + [tau], so)))(x.args[0], x.sort)
        t = subst(t, mp) if mp else t
        return map_apps(t, ap) if ap else t

    def cond_term(self, base, store, hv, closed, tau, fr, cond):
        if cond is None: return TRUE
        s = base.fork()
        st2 = dict(base.store)
        hs = set()
        for leaf, h in hv.items():
            if leaf in closed: lput(st2, leaf, closed[leaf](tau))
            else:
                lput(st2, leaf, h)
                hs |= vsyms(h)
        for leaf in closed:
            lput(st2, leaf, closed[leaf](tau))
        s.store = st2
        s.assume(le(I(0), tau))
        self.quiet += 1
        nthr = len(self.throws)
        try:
            c = self.truth(s, cond, fr)
        except Dead:
            return None
        finally:
            self.quiet -= 1
            del self.throws[nthr:]
        if syms(c) & hs: return None
        return c

    def trip(self, base, c, tau):
        """number of iterations: smallest N >= 0 with not c(N)"""
        if c is TRUE:
            N = fresh('N')
            base.assume(le(I(0), N))
            return N, None
        f = None
        if c.op == 'ge0' and c.args[0].sort == INT:
            li = linear_in(c.args[0], tau)
            if li is not None:
                k = cval(li[0])
                if k is not None and k < 0:
                    r = li[1]
                    n = r + 1 if k == -1 else idiv(r, I(-k)) + 1
                    ok = le(I(0), n) if k == -1 else le(I(0), r)
                    if self.known(base, ok): return n, c
                    return ite(ok, n, I(0)), c
        if c.op == 'not' and c.args[0].op == 'eq0' and c.args[0].args[0].sort == INT:
            li = linear_in(c.args[0].args[0], tau)
            if li is not None:
                k = cval(li[0])
                if k is not None and abs(k) == 1:
                    n = neg(li[1]) if k == 1 else li[1]
                    if not self.known(base, le(I(0), n)):
                        self.oblige(base, 'loop terminates (counter reaches its bound)', le(I(0), n))
                    return n, c
        N = fresh('N')
        q = fresh('q')
        base.assume(le(I(0), N))
        base.assume(forall_(q, implies(and_(le(I(0), q), lt(q, N)), subst(c, {tau: q}))))
        return N, None

    # ---------------------------------------------------------------- closed forms
    def solve_leaf(self, leaf, old, h, out, tau, closed, hv, mod, m0):
        unresolved = {}
        for l, x in hv.items():
            if l not in closed:
                for n in [n for n in vsyms(x) if n.startswith('H')]:
                    unresolved[n] = l
        try:
            if isinstance(h, Term):
                return self.solve_scalar(leaf, old, h, out, tau, unresolved, m0)
            if isinstance(h, Lam):
                return self.solve_lam(leaf, old, h, out, tau, unresolved, m0)
            # other values: overwritten every iteration
            d = vsyms(out)
            if any(n in unresolved for n in d): return None
            if any(born_after(n, m0) and n != tau.args[0] and not n.startswith(('k!', 'i!', 'j!', 'mk!')) for n in d) and not isinstance(out, (Struct, Vec)): pass
            return lambda t: vmerge(eq(t, I(0)), old, vsubst(out, {tau: t - 1}))
        except NoForm:
            return None

    def check_names(self, t, m0, tau, ok=()):
        for n in syms(t):
            if born_after(n, m0) and n != tau.args[0] and n not in ok and not n.startswith(('k!', 'i!', 'j!', 'q!', 's!')):
                raise Unsupported('loop: value depends on a result introduced in the body (%s)' % n)

    def solve_scalar(self, leaf, old, h, out, tau, unresolved, m0):
        if not isinstance(out, Term): return None
        if isinstance(old, Term) and old.sort != out.sort: return None
        dep = {unresolved[n] for n in syms(out) if n in unresolved}
        if out is h: return lambda t: old
        if dep - {leaf}: return None
        if leaf not in dep:
            self.check_names(out, m0, tau)
            o1 = lambda t: subst(out, {tau: t - 1})
            if tau not in fv(out) and isinstance(old, Term):
                return lambda t: ite(eq(t, I(0)), old, out)
            return lambda t: vmerge(eq(t, I(0)), old, o1(t))
        if out.sort == BOOL:
            # flag: out = h or g / h and g
            g1 = subst(out, {h: FALSE})
            g0 = subst(out, {h: TRUE})
            if g0 is TRUE:
                def f(t):
                    k = fresh('q')
                    return or_(old, not_(forall_(k, implies(and_(le(I(0), k), lt(k, t)), not_(subst(g1, {tau: k}))))))
                return f
            if g1 is FALSE:
                def f(t):
                    k = fresh('q')
                    return and_(old, forall_(k, implies(and_(le(I(0), k), lt(k, t)), subst(g0, {tau: k}))))
                return f
            return None
        if out.sort not in (INT, REAL): return None
        e = delta(out, h)
        if e is None: return None
        self.check_names(e, m0, tau)
        if tau not in fv(e):
            return lambda t: old + (e * t if e.sort == INT else e * toreal(t))
        if e.sort == INT:
            li = linear_in(e, tau)
            if li is not None and cval(li[0]) is not None and int(cval(li[0])) % 2 == 0:
                a = I(cval(li[0]) / 2)
                return lambda t: old + a * t * (t - 1) + li[1] * t
        return lambda t: old + sum_body(t, *_bind(e, tau))

    def solve_lam(self, leaf, old, h, out, tau, unresolved, m0):
        if not isinstance(out, Lam): return None
        if h.nc is not None and out.nc is not None and out.nc is not h.nc: return None
        if len(h.ks) != len(out.ks): return None
        ks = h.ks
        body = out.at(ks)
        base = old.at(ks)
        ROWLEN[0] = old.nc
        try: f = self.solve_val(ks, base, h.body, body, tau, unresolved, leaf, m0)
        finally: ROWLEN[0] = None
        if f is None: return None
        return lambda t: Lam(*refresh(ks, f(t)), old.nc)

    def solve_val(self, ks, base, H, body, tau, unresolved, leaf, m0):
        if isinstance(H, Term):
            if not isinstance(body, Term):
                if body is H: return lambda t: base
                return None
            if body is H: return lambda t: base
            dep = {unresolved[n] for n in syms(body) if n in unresolved}
            if dep - {leaf}: return None
            hname = H.args[0]
            # other symbols of the same leaf (different fields) must not be read
            for n in syms(body):
                if n in unresolved and n != hname: return None
            self.check_names(body, m0, tau, ok=(hname,))
            if not isinstance(base, Term): base = app('undef', list(ks), body.sort)
            if body.sort != base.sort: return None
            return closed_array(ks, H, body, base, tau, hname)
        if isinstance(H, Struct):
            if not isinstance(body, Struct): return None
            fs = {}
            for n in H.f:
                if n not in body.f: return None
                b = base.f[n] if isinstance(base, Struct) else UNINIT
                if H.f[n] is body.f[n]:
                    fs[n] = (lambda bb: (lambda t: bb))(b)
                    continue
                fs[n] = self.solve_val(ks, b, H.f[n], body.f[n], tau, unresolved, leaf, m0)
                if fs[n] is None: return None
            return lambda t: Struct(H.cls, {n: g(t) for n, g in fs.items()})
        if isinstance(H, Vec) and isinstance(body, Vec):
            if H.elems is not None:
                if body.elems is None or len(body.elems) != len(H.elems): return None
                gs = [self.solve_val(ks, base.elems[i], H.elems[i], body.elems[i], tau, unresolved, leaf, m0) for i in range(len(H.elems))]
                if any(g is None for g in gs): return None
                return lambda t: Vec(H.et, [g(t) for g in gs])
            gl = self.solve_val(ks, base.len, H.len, body.len, tau, unresolved, leaf, m0) if H.len.op in ('app', 'var') else (lambda t: base.len)
            if gl is None: return None
            hl, bl = H.lam, body.tolam()
            if len(hl.ks) != len(bl.ks): return None
            k2 = hl.ks
            g = self.solve_val(ks + k2, base.tolam().at(k2) if len(base.tolam().ks) == len(k2) else UNINIT, hl.body, bl.at(k2), tau, unresolved, leaf, m0)
            if g is None: return None
            return lambda t: Vec(H.et, None, gl(t), Lam(*refresh(k2, g(t)), hl.nc))
        if body is H or same(body, H): return lambda t: base
        return lambda t: vmerge(eq(t, I(0)), base, body) if False else body


def refresh(ks, v):
    kk = tuple(fresh('k') for _ in ks)
    return kk, vsubst(v, dict(zip(ks, kk)))


def lget_keys(x):
    return None


def leafname(leaf):
    return 'c%s' % leaf[0] + ''.join('.' + (str(p[1]) if p[0] == 'f' else p[0]) for p in leaf[1])


_old_vterms = vterms
def vterms(v):
    if v is None: return iter(())
    return _old_vterms(v)


for _n, _f in list(vars(Loops).items()):
    if callable(_f): setattr(Engine, _n, _f)
