"""Hash-consed terms with polynomial normal forms (int and real), booleans, sums,
and the SMT back end (z3).  Integers are mathematical; doubles are reals."""
from fractions import Fraction
import itertools, time, os

INT, REAL, BOOL = 'Int', 'Real', 'Bool'
_tab = {}
_ctr = itertools.count()


class Term:
    __slots__ = ('op', 'args', 'sort', 'id', '_fv', '_z', '__weakref__')

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    # arithmetic sugar for specifications
    def __add__(s, o): return add(s, lift(o, s.sort))
    def __radd__(s, o): return add(lift(o, s.sort), s)
    def __sub__(s, o): return sub(s, lift(o, s.sort))
    def __rsub__(s, o): return sub(lift(o, s.sort), s)
    def __mul__(s, o): return mul(s, lift(o, s.sort))
    def __rmul__(s, o): return mul(lift(o, s.sort), s)
    def __truediv__(s, o): return rdiv(s, lift(o, s.sort))
    def __rtruediv__(s, o): return rdiv(lift(o, s.sort), s)
    def __neg__(s): return neg(s)
    def __lt__(s, o): return lt(s, lift(o, s.sort))
    def __le__(s, o): return le(s, lift(o, s.sort))
    def __gt__(s, o): return lt(lift(o, s.sort), s)
    def __ge__(s, o): return le(lift(o, s.sort), s)
    def __repr__(s): return show(s)


def mk(op, args, sort):
    k = (op, args, sort)
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op, t.args, t.sort, t.id = op, args, sort, next(_ctr)
        t._fv = None
        t._z = None
        _tab[k] = t
    return t


TRUE = mk('true', (), BOOL)
FALSE = mk('false', (), BOOL)
_fresh = itertools.count()


def var(name, sort=INT): return mk('var', (name,), sort)


def fresh(name, sort=INT): return mk('var', ('%s!%d' % (name, next(_fresh)),), sort)


def const(v, sort=INT):
    v = Fraction(v)
    if v == 0:
        return mk('poly', (), sort)
    return mk('poly', (((), v),), sort)


def I(v): return const(v, INT)
def R(v): return const(v, REAL)


def lift(v, sort):
    if isinstance(v, Term):
        if v.sort != sort:
            if v.sort == INT and sort == REAL:
                return toreal(v)
            if v.sort == REAL and sort == INT:
                raise TypeError('real used as int: %s' % show(v))
            if v.sort == BOOL and sort in (INT, REAL):
                return ite(v, const(1, sort), const(0, sort))
        return v
    if isinstance(v, bool):
        return TRUE if v else FALSE
    return const(v, sort)


def is_const(t): return t.op == 'poly' and (not t.args or (len(t.args) == 1 and t.args[0][0] == ()))


def cval(t):
    """numeric value of a constant term or None"""
    if t.op == 'poly':
        if not t.args:
            return Fraction(0)
        if len(t.args) == 1 and t.args[0][0] == ():
            return t.args[0][1]
    return None


def monos(t):
    """dict monomial -> coeff ; monomial = tuple of (atom, exp) sorted by atom id"""
    if t.op == 'poly':
        return dict(t.args)
    return {((t, 1),): Fraction(1)}


def from_monos(d, sort):
    items = [(m, c) for m, c in d.items() if c != 0]
    if len(items) == 1:
        m, c = items[0]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    return mk('poly', tuple(items), sort)


def _num(a, b):
    if a.sort == b.sort:
        return a, b
    if a.sort == BOOL:
        a = lift(a, b.sort)
        return a, b
    if b.sort == BOOL:
        b = lift(b, a.sort)
        return a, b
    return toreal(a), toreal(b)


def add(a, b):
    a, b = _num(a, b)
    d = monos(a)
    for m, c in monos(b).items():
        d[m] = d.get(m, 0) + c
    return from_monos(d, a.sort)


def neg(a):
    return from_monos({m: -c for m, c in monos(a).items()}, a.sort)


def sub(a, b):
    a, b = _num(a, b)
    d = monos(a)
    for m, c in monos(b).items():
        d[m] = d.get(m, 0) - c
    return from_monos(d, a.sort)


def mmul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].id))


def mul(a, b):
    a, b = _num(a, b)
    ma, mb = monos(a), monos(b)
    # ite with constants distributes poorly; keep as is
    d = {}
    for m1, c1 in ma.items():
        for m2, c2 in mb.items():
            m = mmul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return from_monos(d, a.sort)


def rdiv(a, b):
    a, b = toreal(a), toreal(b)
    c = cval(b)
    if c is not None and c != 0:
        return mul(a, const(1 / c, REAL))
    mb = monos(b)
    if len(mb) == 1:
        (m, c), = mb.items()
        inv = from_monos({tuple((x, -e) for x, e in m): 1 / c}, REAL)
        # single inverse atom: exponent -1 (never collapses to an atom)
        return mul(a, inv)
    # normalise leading coefficient so that equal polynomials up to scale share the atom
    lead = sorted(mb.items(), key=lambda mc: tuple((x.id, e) for x, e in mc[0]))[0][1]
    bn = from_monos({m: c / lead for m, c in mb.items()}, REAL)
    inv = mk('poly', ((((bn, -1),), 1 / lead),), REAL) if bn.op != 'poly' else \
        mk('poly', ((((mk('inv', (bn,), REAL), 1),), 1 / lead),), REAL)
    if inv.op == 'poly' and len(inv.args) == 1 and inv.args[0][1] == 1 and inv.args[0][0][0][1] == 1:
        inv = inv.args[0][0][0][0]
    return mul(a, inv)


def toreal(t):
    if t.sort == REAL:
        return t
    if t.sort == BOOL:
        return lift(t, REAL)
    d = {}
    for m, c in monos(t).items():
        mm = ()
        for a, e in m:
            mm = mmul(mm, ((mk('toreal', (a,), REAL), e),))
        d[mm] = d.get(mm, 0) + c
    return from_monos(d, REAL)


def app(f, args, sort):
    return mk('app', (f,) + tuple(args), sort)


# integer division (truncating for nonnegative operands == floor)
def idiv(a, b):
    ca, cb = cval(a), cval(b)
    if cb == 1:
        return a
    if ca == 0:
        return a
    if ca is not None and cb is not None and cb != 0:
        q = abs(ca) // abs(cb)
        return I(q if (ca >= 0) == (cb > 0) else -q)
    if a is b:
        pass
    q, r = split_by(a, b)
    if r is not None and cval(r) == 0:
        return q
    return mk('idiv', (a, b), INT)


def imod(a, b):
    ca, cb = cval(a), cval(b)
    if cb == 1 or ca == 0:
        return I(0)
    if ca is not None and cb is not None and cb != 0:
        q = abs(ca) // abs(cb)
        q = q if (ca >= 0) == (cb > 0) else -q
        return I(ca - q * cb)
    q, r = split_by(a, b)
    if r is not None and cval(r) == 0:
        return I(0)
    return mk('imod', (a, b), INT)


def split_by(a, n, all_=False):
    """a = q*n + r syntactically, for n an atom or an integer constant or a monomial"""
    c = cval(n)
    q, r = {}, {}
    if c is not None:
        if c == 0:
            return [] if all_ else (I(0), None)
        for m, k in monos(a).items():
            if k % c == 0:
                q[m] = k / c
            else:
                kk = (k // c)
                if m != () and kk != 0 and False:
                    q[m] = kk
                    r[m] = k - kk * c
                else:
                    r[m] = k
        if () in r:
            k = r[()]
            kk = k // c
            if kk != 0:
                q[()] = q.get((), 0) + kk
            r[()] = k - kk * c
        return [(from_monos(q, INT), from_monos(r, INT))] if all_ else (from_monos(q, INT), from_monos(r, INT))
    mn = monos(n)
    if len(mn) != 1:
        # polynomial divisor: division by a leading monomial, the choice that leaves the least
        top = max(mn, key=lambda m: (sum(e for _, e in m), tuple(x.id for x, _ in m)))
        found = []
        for lm in [top] + [m for m in mn if m is not top and len(m) == 1 and m[0][1] == 1 and abs(mn[m]) == 1]:
            rest, qq = a, I(0)
            for _ in range(40):
                hit = None
                for m, k in monos(rest).items():
                    x = _mdiv(m, lm)
                    if x is not None:
                        hit = (x, k / mn[lm])
                        break
                if hit is None:
                    break
                t = from_monos({hit[0]: hit[1]}, INT)
                qq = add(qq, t)
                rest = sub(rest, mul(t, n))
            if hit is None and rest not in [x[1] for x in found]: found.append((qq, rest))
        found.sort(key=lambda x: (x[1] is a, sum(1 for c in monos(x[1]).values() if c < 0), len(monos(x[1]))))
        if all_: return found
        return found[0] if found else (I(0), a)
    (nm, nc), = mn.items()
    for m, k in monos(a).items():
        x = _mdiv(m, nm)
        if x is not None and k % nc == 0:
            q[x] = k / nc
        else:
            r[m] = k
    return [(from_monos(q, INT), from_monos(r, INT))] if all_ else (from_monos(q, INT), from_monos(r, INT))


def _mdiv(m, n):
    d = dict(m)
    for a, e in n:
        if d.get(a, 0) < e:
            return None
        d[a] -= e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))


# ---- booleans
def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    if a.op == 'ge0' and a.args[0].sort == INT:
        return ge0(sub(neg(a.args[0]), I(1)))
    return mk('not', (a,), BOOL)


def and_(*xs):
    out, seen = [], set()
    for x in _flat('and', xs):
        if x is TRUE: continue
        if x is FALSE: return FALSE
        if x in seen: continue
        if not_(x) in seen: return FALSE
        seen.add(x); out.append(x)
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk('and', tuple(out), BOOL)


def or_(*xs):
    out, seen = [], set()
    for x in _flat('or', xs):
        if x is FALSE: continue
        if x is TRUE: return TRUE
        if x in seen: continue
        if not_(x) in seen: return TRUE
        seen.add(x); out.append(x)
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return mk('or', tuple(out), BOOL)


def _flat(op, xs):
    for x in xs:
        if isinstance(x, (list, tuple)):
            yield from _flat(op, x)
        elif isinstance(x, bool):
            yield TRUE if x else FALSE
        elif x.op == op:
            yield from x.args
        else:
            yield x


def implies(a, b): return or_(not_(a), b)


def ge0(d):
    c = cval(d)
    if c is not None:
        return TRUE if c >= 0 else FALSE
    if d.sort == INT:
        # divide by gcd of coefficients
        ms = monos(d)
        g = 0
        from math import gcd
        for m, k in ms.items():
            if m != ():
                g = gcd(g, int(abs(k)))
        if g > 1:
            ms = {m: (k / g if m != () else Fraction((k / g).__floor__())) for m, k in ms.items()}
            d = from_monos(ms, INT)
    return mk('ge0', (d,), BOOL)


def le(a, b):
    a, b = _num(a, b)
    return ge0(sub(b, a))


def lt(a, b):
    a, b = _num(a, b)
    if a.sort == INT:
        return ge0(sub(sub(b, a), I(1)))
    d = sub(b, a)
    c = cval(d)
    if c is not None:
        return TRUE if c > 0 else FALSE
    return mk('gt0', (d,), BOOL)


def eq(a, b):
    if not isinstance(a, Term): a = lift(a, b.sort)
    if not isinstance(b, Term): b = lift(b, a.sort)
    if a is b: return TRUE
    if a.sort == BOOL and b.sort == BOOL:
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return not_(b)
        if b is FALSE: return not_(a)
        if not_(a) is b: return FALSE
        if a.id > b.id: a, b = b, a
        return mk('eq', (a, b), BOOL)
    if a.sort not in (INT, REAL, BOOL) or b.sort not in (INT, REAL, BOOL):
        if a.sort != b.sort:
            raise TypeError('eq sorts %s %s' % (a.sort, b.sort))
        if a.op == 'strlit' and b.op == 'strlit':
            return FALSE
        if a.sort == 'Str' and {a.op, b.op} <= {'app', 'strlit', 'var'} and 'strcat' in (a.op == 'app' and a.args[0], b.op == 'app' and b.args[0]):
            r = texts_differ(a, b)
            if r is not None:
                if not isinstance(r, tuple): return r
                return eq(*r)
        if a.id > b.id: a, b = b, a
        return mk('eq', (a, b), BOOL)
    a, b = _num(a, b)
    if a is b: return TRUE
    d = sub(a, b)
    c = cval(d)
    if c is not None:
        return TRUE if c == 0 else FALSE
    for x, y in ((a, b), (b, a)):
        # a flag stored as a number
        if x.op == 'ite' and cval(y) is not None and cval(x.args[1]) is not None and cval(x.args[2]) is not None:
            t, e = cval(x.args[1]) == cval(y), cval(x.args[2]) == cval(y)
            return TRUE if t and e else x.args[0] if t else not_(x.args[0]) if e else FALSE
    ms = monos(d)
    lead = sorted(ms.items(), key=lambda mc: tuple((x.id, e) for x, e in mc[0]))[-1][1]
    if lead < 0:
        d = neg(d)
    return mk('eq0', (d,), BOOL)


def pieces(v):
    if v.op == 'app' and v.args[0] == 'strcat': return pieces(v.args[1]) + pieces(v.args[2])
    if v.op == 'strlit': return list(v.args[0])
    return [v]


def texts_differ(a, b):
    """compares concatenations after removing what they share in front and behind"""
    p, q = pieces(a), pieces(b)
    n = 0
    while p and q and (p[0] is q[0] or isinstance(p[0], str) and p[0] == q[0]): p, q, n = p[1:], q[1:], n + 1
    while p and q and (p[-1] is q[-1] or isinstance(p[-1], str) and p[-1] == q[-1]): p, q, n = p[:-1], q[:-1], n + 1
    if not p and not q: return TRUE
    for x, y in ((p, q), (q, p)):
        if not x and any(isinstance(c, str) for c in y): return FALSE
    if p and q and isinstance(p[0], str) and isinstance(q[0], str) or p and q and isinstance(p[-1], str) and isinstance(q[-1], str): return FALSE
    if not n: return None
    def join(l):
        r = None
        for c in l:
            c = mk('strlit', (c,), 'Str') if isinstance(c, str) else c
            if r is None: r = c
            elif c.op == 'strlit' and r.op == 'strlit': r = mk('strlit', (r.args[0] + c.args[0],), 'Str')
            elif c.op == 'strlit' and r.op == 'app' and r.args[0] == 'strcat' and r.args[2].op == 'strlit': r = app('strcat', [r.args[1], mk('strlit', (r.args[2].args[0] + c.args[0],), 'Str')], 'Str')
            else: r = app('strcat', [r, c], 'Str')
        return mk('strlit', ('',), 'Str') if r is None else r
    return join(p), join(q)


def ne(a, b): return not_(eq(a, b))


def ite(c, a, b):
    if isinstance(c, bool): c = TRUE if c else FALSE
    if c is TRUE: return a
    if c is FALSE: return b
    if not isinstance(a, Term): a = lift(a, b.sort)
    if not isinstance(b, Term): b = lift(b, a.sort)
    if a is b: return a
    if a.sort == BOOL:
        return and_(or_(not_(c), a), or_(c, b))
    if a.sort != b.sort:
        a, b = _num(a, b)
    if c.op == 'not':
        return ite(c.args[0], b, a)
    # collapse ite(c, ite(c,x,_), _)
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    return mk('ite', (c, a, b), a.sort)


def min_(a, b):
    a, b = _num(a, b)
    if a is b: return a
    return ite(le(a, b), a, b)


def max_(a, b):
    a, b = _num(a, b)
    if a is b: return a
    return ite(le(a, b), b, a)


# ---- bound structures: sum(n, lam) ; body over canonical bound var
def bvar(level, sort=INT): return mk('bv', (level,), sort)


def blevel(t):
    """1 + highest bound-variable level used in t"""
    best = 0
    for x in subterms(t):
        if x.op == 'bv':
            best = max(best, x.args[0] + 1)
    return best


def sum_(n, f, sort=REAL):
    """sum_{k=0}^{n-1} f(k)"""
    k = fresh('sk')
    body = f(k)
    return sum_body(n, k, body)


def point_of(inner, k):
    """(e, factor) for a product with a factor ite(k == e, x, 0)"""
    for a, x in inner:
        if a.op == 'ite' and x == 1 and cval(a.args[2]) == 0 and a.args[0].op == 'eq0':
            ms = monos(a.args[0].args[0])
            c = ms.get(((k, 1),))
            if c is None or abs(c) != 1: continue
            rest = from_monos({m: v for m, v in ms.items() if m != ((k, 1),)}, INT)
            if k in fv(rest): continue
            return (mul(I(-1), rest) if c == 1 else rest), a
    return None


def sum_body(n, k, body):
    c = cval(n)
    if c is not None and c <= 12:
        r = const(0, body.sort)
        for i in range(int(c)):
            r = add(r, subst(body, {k: I(i)}))
        return r
    res = const(0, body.sort)
    kk = k
    for m, c in monos(body).items():
        inner, outer = [], []
        for a, e in m:
            (inner if kk in fv(a) else outer).append((a, e))
        innerm = from_monos({tuple(inner): Fraction(1)}, body.sort)
        pt = point_of(inner, kk)
        if pt is not None:
            # the summand vanishes except at one position
            e, a0 = pt
            s = subst(replace_terms(innerm, {a0: a0.args[1]}), {kk: e})
            s = ite(and_(le(I(0), e), lt(e, n)), s, const(0, body.sort))
            res = add(res, mul(from_monos({tuple(outer): c}, body.sort), s))
            continue
        if not inner:
            s = n if body.sort == INT else toreal(n)
            s = max_(s, const(0, body.sort)) if False else s
            # n >= 0 is required of every use
        else:
            lev = max(blevel(innerm), blevel(n))
            b = bvar(lev)
            s = mk('sum', (n, b, subst(innerm, {kk: b})), body.sort)
        res = add(res, mul(from_monos({tuple(outer): c}, body.sort), s))
    return res


def forall_(k, body):
    """quantified fact over the int variable k (instantiated on demand)"""
    if body is TRUE:
        return TRUE
    lev = blevel(body)
    b = bvar(lev)
    return mk('forall', (b, subst(body, {k: b})), BOOL)


_EMPTY = frozenset()
_fbv = {}


def fbv(t):
    """free bound-variables of t"""
    r = _fbv.get(t)
    if r is None:
        if t.op == 'bv':
            r = frozenset((t,))
        elif t.op == 'poly':
            r = _EMPTY
            for m, c in t.args:
                for a, e in m:
                    r = r | fbv(a)
        elif t.op == 'sum':
            r = fbv(t.args[0]) | (fbv(t.args[2]) - {t.args[1]})
        elif t.op == 'forall':
            r = fbv(t.args[1]) - {t.args[0]}
        else:
            r = _EMPTY
            for a in t.args:
                if isinstance(a, Term):
                    r = r | fbv(a)
        _fbv[t] = r
    return r


def fv(t):
    r = t._fv
    if r is None:
        if t.op == 'var':
            r = frozenset((t,))
        elif t.op == 'poly':
            r = _EMPTY
            for m, c in t.args:
                for a, e in m:
                    r = r | fv(a)
        else:
            r = _EMPTY
            for a in t.args:
                if isinstance(a, Term):
                    r = r | fv(a)
        t._fv = r
    return r


def subterms(t, seen=None):
    if seen is None: seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        yield x
        if x.op == 'poly':
            for m, c in x.args:
                for a, e in m:
                    st.append(a)
        else:
            for a in x.args:
                if isinstance(a, Term):
                    st.append(a)


def rebuild(t, f):
    """rebuild t with f applied to children"""
    op = t.op
    if op in ('var', 'true', 'false', 'bv', 'strlit'):
        return t
    if op == 'poly':
        res = const(0, t.sort)
        changed = False
        for m, c in t.args:
            for a, e in m:
                if f(a) is not a:
                    changed = True
        if not changed:
            return t
        d = {}
        acc = const(0, t.sort)
        for m, c in t.args:
            if all(f(a) is a for a, e in m):
                d[m] = d.get(m, 0) + c
            else:
                p = const(c, t.sort)
                for a, e in m:
                    fa = f(a)
                    if e < 0:
                        for _ in range(-e):
                            p = rdiv(p, fa)
                    else:
                        for _ in range(e):
                            p = mul(p, fa)
                acc = add(acc, p)
        return add(from_monos(d, t.sort), acc)
    na = tuple(f(a) if isinstance(a, Term) else a for a in t.args)
    if all(x is y for x, y in zip(na, t.args)):
        return t
    if op == 'app': return rebuild_app(na, t.sort)
    if op == 'ite': return ite(*na)
    if op == 'not': return not_(*na)
    if op == 'and': return and_(*na)
    if op == 'or': return or_(*na)
    if op == 'ge0': return ge0(na[0])
    if op == 'gt0':
        return lt(const(0, na[0].sort), na[0])
    if op == 'eq0': return eq(na[0], const(0, na[0].sort))
    if op == 'eq': return eq(*na)
    if op == 'idiv': return idiv(*na)
    if op == 'imod': return imod(*na)
    if op == 'toreal': return toreal(na[0])
    if op == 'inv': return rdiv(const(1, REAL), na[0])
    if op == 'sum':
        k = fresh('sk')
        # the bound variable must not be captured: rename through a fresh variable
        n, b, body = na
        return sum_body(n, k, subst(body, {b: k}))
    if op == 'forall':
        k = fresh('qk')
        b, body = na
        return forall_(k, subst(body, {b: k}))
    return mk(op, na, t.sort)


app_rules = {}


def rebuild_app(na, sort):
    r = app_rules.get(na[0])
    if r is not None:
        x = r(na[1:], sort)
        if x is not None:
            return x
    return mk('app', na, sort)


def subst(t, mp):
    if not mp:
        return t
    keys = set(mp)
    bvs = any(k.op == 'bv' for k in keys)
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x in mp:
            r = mp[x]
        elif not bvs and not (fv(x) & keys):
            r = x
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


def replace_terms(t, mp):
    """replace arbitrary subterms (atoms)"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        r = mp[x] if x in mp else rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


def show(t, depth=int(os.environ.get("VC_SHOW", "12"))):
    if depth <= 0:
        return '...'
    op = t.op
    d = depth - 1
    if op == 'var': return t.args[0]
    if op == 'bv': return '$%d' % t.args[0]
    if op == 'strlit': return repr(t.args[0])
    if op == 'poly':
        if not t.args: return '0'
        out = []
        for m, c in t.args:
            s = '*'.join(show(a, d) + ('' if e == 1 else '^%d' % e) for a, e in m)
            if not m: s = str(c)
            elif c != 1: s = '%s*%s' % (c, s)
            out.append(s)
        return '(' + ' + '.join(out) + ')'
    if op == 'app': return '%s(%s)' % (t.args[0], ', '.join(show(a, d) if isinstance(a, Term) else str(a) for a in t.args[1:]))
    if op == 'ge0': return '(%s >= 0)' % show(t.args[0], d)
    if op == 'gt0': return '(%s > 0)' % show(t.args[0], d)
    if op == 'eq0': return '(%s == 0)' % show(t.args[0], d)
    return '%s(%s)' % (op, ', '.join(show(a, d) if isinstance(a, Term) else str(a) for a in t.args))


# ------------------------------------------------------------------ SMT
import z3

STATS = {'queries': 0, 'time': 0.0, 'unsat': 0, 'sat': 0, 'unknown': 0}
TIMEOUT_MS = int(os.environ.get('VC_TIMEOUT_MS', '8000'))
_sorts = {}


def zsort(s):
    if s == INT: return z3.IntSort()
    if s == REAL: return z3.RealSort()
    if s == BOOL: return z3.BoolSort()
    if s not in _sorts:
        _sorts[s] = z3.DeclareSort(str(s))
    return _sorts[s]


class Ctx:
    """one SMT query"""

    def __init__(self):
        self.memo = {}
        self.intmono = set()    # monomials (tuples) of degree >= 2 over ints
        self.divs = set()
        self.sums = {}
        self.toreals = set()
        self.foralls = set()
        self.strs = set()
        self.realmono = set()
        self.side = []

    def z(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        r = self._z(t)
        self.memo[t] = r
        return r

    def mono(self, m, sort):
        # m: tuple of (atom, exp)
        if sort == INT:
            fs = []
            for a, e in m:
                fs += [a] * e
            if len(fs) == 1:
                return self.z(fs[0])
            self.intmono.add(tuple(fs))
            f = z3.Function('IMUL%d' % len(fs), *([z3.IntSort()] * (len(fs) + 1)))
            return f(*[self.z(a) for a in fs])
        fs = []
        for a, e in m:
            if e > 0:
                fs += [self.z(a)] * e
            else:
                inv = z3.Function('RINV', z3.RealSort(), z3.RealSort())(self.z(a))
                fs += [inv] * (-e)
        if len(fs) == 1:
            return fs[0]
        self.realmono.add(m)
        f = z3.Function('RMUL%d' % len(fs), *([z3.RealSort()] * (len(fs) + 1)))
        return f(*fs)

    def num(self, c, sort):
        if sort == INT:
            return z3.IntVal(int(c))
        return z3.RealVal(str(c))

    def _z(self, t):
        op = t.op
        if op == 'var': return z3.Const(t.args[0], zsort(t.sort))
        if op == 'bv': return z3.Const('$bv%d' % t.args[0], zsort(t.sort))
        if op == 'true': return z3.BoolVal(True)
        if op == 'false': return z3.BoolVal(False)
        if op == 'strlit':
            self.strs.add(t)
            return z3.Const('strlit$%s' % t.args[0], zsort(t.sort))
        if op == 'poly':
            out = []
            for m, c in t.args:
                if m == ():
                    out.append(self.num(c, t.sort))
                else:
                    x = self.mono(m, t.sort)
                    out.append(x if c == 1 else self.num(c, t.sort) * x)
            if not out: return self.num(0, t.sort)
            return out[0] if len(out) == 1 else z3.Sum(out)
        if op == 'app':
            f = t.args[0]
            args = t.args[1:]
            if not args:
                return z3.Const('%s()' % f, zsort(t.sort))
            g = z3.Function('%s/%d' % (f, len(args)), *[zsort(a.sort) for a in args], zsort(t.sort))
            return g(*[self.z(a) for a in args])
        if op == 'ite': return z3.If(self.z(t.args[0]), self.z(t.args[1]), self.z(t.args[2]))
        if op == 'not': return z3.Not(self.z(t.args[0]))
        if op == 'and': return z3.And(*[self.z(a) for a in t.args])
        if op == 'or': return z3.Or(*[self.z(a) for a in t.args])
        if op == 'ge0': return self.z(t.args[0]) >= 0
        if op == 'gt0': return self.z(t.args[0]) > 0
        if op == 'eq0':
            return self.z(t.args[0]) == 0
        if op == 'eq': return self.z(t.args[0]) == self.z(t.args[1])
        if op in ('idiv', 'imod'):
            a, b = t.args
            c = cval(b)
            if c is not None and c > 0:
                # truncating division by a positive constant
                A = self.z(a)
                C = z3.IntVal(int(c))
                if op == 'idiv':
                    return z3.If(A >= 0, A / C, -((-A) / C))
                return z3.If(A >= 0, A % C, -((-A) % C))
            self.divs.add((a, b))
            g = z3.Function(op, z3.IntSort(), z3.IntSort(), z3.IntSort())
            return g(self.z(a), self.z(b))
        if op == 'toreal':
            return z3.ToReal(self.z(t.args[0]))
        if op == 'inv':
            return z3.Function('RINV', z3.RealSort(), z3.RealSort())(self.z(t.args[0]))
        if op == 'sum':
            c = z3.Const('SUM#%d' % t.id, zsort(t.sort))
            self.sums[t] = c
            self.z(t.args[0])
            return c
        if op == 'forall':
            self.foralls.add(t)
            return z3.Const('FORALL#%d' % t.id, z3.BoolSort())
        raise NotImplementedError(op)


def _index_terms(ts):
    """int terms worth instantiating foralls at"""
    out = {}
    for t in ts:
        for x in subterms(t):
            if x.op == 'var' and x.sort == INT:
                out[x] = 1
            elif x.op == 'app':
                for a in x.args[1:]:
                    if isinstance(a, Term) and a.sort == INT and not fbv(a):
                        out[a] = 1
            if x.op == 'app' and x.sort == INT and not fbv(x):
                out[x] = 1
    return [x for x in out if x.op != 'ite' and not (x.op == 'app' and x.args[0].startswith('wrap'))]


class Result:
    __slots__ = ('ok', 'status', 'model')

    def __init__(self, ok, status, model=None):
        self.ok, self.status, self.model = ok, status, model

    def __bool__(self): return self.ok


def _shifts_of(q):
    """terms d such that the body reads something at (bound variable + d)"""
    k, body = q.args
    out = []
    for x in subterms(body):
        if x.op != 'app': continue
        for a in x.args[1:]:
            if isinstance(a, Term) and a.sort == INT and a.op == 'poly' and any(m == ((k, 1),) and c == 1 for m, c in a.args):
                d = sub(a, k)
                if not fbv(d) and k not in subterms(d) and d not in out: out.append(d)
    return out[:2]


def _bounds_of(q):
    """last value of the range a quantified formula speaks about"""
    k, body = q.args
    out = []
    ds = []
    for d in (body.args if body.op == 'or' else (body,)):
        if d.op == 'not' and d.args[0].op == 'and': ds += [not_(x) for x in d.args[0].args]
        else: ds.append(d)
    for d in ds:
        if d.op == 'ge0' and d.args[0].op == 'poly':
            co = [c for m, c in d.args[0].args if m == ((k, 1),)]
            if co == [1]:
                n = sub(mk('poly', (), INT), sub(d.args[0], k))
                if k not in fbv(n) and not fbv(n): out.append(sub(n, I(1)))
    return out


_pcache = {}
DEADLINE = [None]       # absolute time after which no further query is started


def prove(hyps, goal, timeout=None, sumdepth=0, want_model=False, insts=()):
    """hyps |- goal ?"""
    goal = goal if isinstance(goal, Term) else (TRUE if goal else FALSE)
    if goal is TRUE:
        return Result(True, 'trivial')
    hyps = [h for h in hyps if h is not TRUE]
    hs = set(hyps)
    if goal in hs or FALSE in hs:
        return Result(True, 'trivial')
    if goal.op == 'and':
        for g in goal.args:
            r = prove(hyps, g, timeout, sumdepth, want_model, insts)
            if not r:
                return r
        return Result(True, 'unsat')
    if goal.op == 'forall':
        k = fresh('g')
        return prove(hyps, subst(goal.args[1], {goal.args[0]: k}), timeout, sumdepth, want_model, insts)
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        return Result(False, 'budget')
    key = (frozenset(hs), goal, sumdepth)
    if not want_model and key in _pcache:
        return _pcache[key]
    r = _prove(hyps, goal, timeout or TIMEOUT_MS, sumdepth, want_model, insts)
    _pcache[key] = r
    return r


def equalities(hyps):
    """substitution onto representatives from hypotheses x == y between int variables"""
    par = {}
    def find(x):
        while x in par: x = par[x]
        return x
    for h in hyps:
        if h.op != 'eq0' or h.args[0].sort != INT: continue
        ms = h.args[0].args if h.args[0].op == 'poly' else ()
        if len(ms) == 2 and all(len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('var', 'app') for m, c in ms) and ms[0][1] == -ms[1][1]:
            a, b = find(ms[0][0][0][0]), find(ms[1][0][0][0])
            if a is not b:
                if a.id > b.id: a, b = b, a
                if b in fv(a) or (a.op == 'app' and b.op == 'var' and b in fv(a)): continue
                par[b] = a
    return {x: find(x) for x in par}


def relevant(hyps, goal):
    """cone of influence over free variables and uninterpreted symbols (keeps everything connected)"""
    def syms(t):
        s = set()
        for x in subterms(t):
            if x.op == 'var': s.add(x)
            elif x.op == 'app' and len(x.args) > 1: s.add(x.args[0])
        return s
    hs = [(h, syms(h)) for h in hyps]
    cur = syms(goal)
    keep = set()
    ch = True
    while ch:
        ch = False
        for i, (h, s) in enumerate(hs):
            if i not in keep and (not s or s & cur):
                keep.add(i); cur |= s; ch = True
    return [h for i, (h, s) in enumerate(hs) if i in keep]


def _prove(hyps, goal, timeout, sumdepth, want_model, insts):
    t0 = time.time()
    cx = Ctx()
    if want_model:
        # equal sizes under one name
        mp = equalities(hyps)
        if mp:
            goal = subst(goal, mp)
            if goal is TRUE: return Result(True, 'simplified')
            hyps = [h for h in (subst(h, mp) for h in hyps) if h is not TRUE]
            insts = [subst(i, mp) for i in insts]
    neg = not_(goal)
    goal_sums = {x for x in subterms(goal) if x.op == 'sum'}
    if not goal_sums:
        # sums in hypotheses say nothing about a goal without sums
        hyps = [h for h in hyps if not any(x.op == 'sum' for x in subterms(h))]
    asserts = [neg] + list(hyps)
    # instantiate quantified hypotheses
    foralls = []
    for h in asserts:
        for x in subterms(h):
            if x.op == 'forall' and x not in foralls and not fbv(x):
                foralls.append(x)
    extra = []
    if foralls:
        base = [neg] + [h for h in hyps if h.op != 'forall']
        done, wit = set(), set()
        new = []
        def note_q(q):
            # a quantified formula that may be false needs a witness
            if q in wit: return
            wit.add(q)
            if q not in hs_:
                w = app('WIT#%d' % q.id, (), INT)
                new.append(or_(q, not_(subst(q.args[1], {q.args[0]: w}))))
                if q in neg_q: cands.append(w)
        hs_ = set(hyps)
        neg_q = {x for x in subterms(neg) if x.op == 'forall'}
        cands = list(insts) + _index_terms([neg])
        if len(cands) < 10:
            cands += [c for c in _index_terms(base) if c not in cands]
        cands += [I(0)]
        for q in list(foralls): note_q(q)
        cands = list(dict.fromkeys(cands))[:28]
        for rnd in range(3):
            for q in list(foralls):
                cs = _bounds_of(q) + cands
                if want_model:
                    # a second attempt: also where the body then reads at a term in question
                    cs = cs + [sub(c, d) for d in _shifts_of(q) for c in sorted(cands, key=lambda c: not (c.op == 'app' and c.args[0].startswith('WIT#')))[:14] if not fbv(c)]
                for c in cs:
                    if (q, c) in done: continue
                    if len(done) > (1000 if want_model else 500): break
                    done.add((q, c))
                    inst = subst(q.args[1], {q.args[0]: c})
                    new.append(inst if q in hs_ else implies(q, inst))
            extra += new
            if rnd == 2: break
            if rnd == 0:
                cands = cands + [c for c in _index_terms(new) if c not in cands][:16]
            for n in new:
                for x in subterms(n):
                    if x.op == 'forall' and x not in foralls and not fbv(x): foralls.append(x)
            new = []
            for q in list(foralls): note_q(q)
        extra += [n for n in new if n not in extra]
    asserts = asserts + extra
    zs = []
    for a in asserts:
        if a.op == 'forall':
            zs.append(cx.z(a))
            continue
        zs.append(cx.z(a))
    s = z3.Solver()
    s.set('timeout', timeout)
    # sums: congruence lemmas
    if len(cx.sums) > 1 and sumdepth < 3:
        sl = list(cx.sums)
        for i in range(len(sl)):
            for j in range(i):
                a, b = sl[i], sl[j]
                if a.sort != b.sort or fbv(a) or fbv(b):
                    continue
                if sumdepth and not (a in goal_sums or b in goal_sums): continue
                l = sum_congruence(hyps + extra, a, b, timeout, sumdepth)
                if l:
                    zs.append(cx.sums[a] == cx.sums[b])
        for i in range(len(sl)):
            for j in range(len(sl)):
                if i == j: continue
                a, b = sl[i], sl[j]
                if a.sort != b.sort or fbv(a) or fbv(b): continue
                d = cval(sub(a.args[0], b.args[0]))
                if d is None or not (0 < d <= 4): continue
                k = fresh('sk')
                fa, fb = subst(a.args[2], {a.args[1]: k}), subst(b.args[2], {b.args[1]: k})
                if fa is not fb:
                    if not prove(hyps + extra + [le(I(0), k), lt(k, b.args[0])], eq(fa, fb), timeout, sumdepth + 1): continue
                r = cx.sums[b]
                for q in range(int(d)):
                    r = r + cx.z(subst(fa, {k: add(b.args[0], I(q))}))
                zs.append(z3.Implies(cx.z(b.args[0]) >= 0, cx.sums[a] == r))
        for a in sl:
            zs.append(z3.Implies(cx.z(a.args[0]) <= 0, cx.sums[a] == 0))
    zs += lemmas(cx)
    s.add(*zs)
    r = s.check()
    spurious = False
    if r == z3.sat and want_model:
        r, spurious = refine(cx, s, t0 + min(timeout / 1000.0, 6.0))
    dt = time.time() - t0
    STATS['queries'] += 1
    STATS['time'] += dt
    if r == z3.unsat:
        STATS['unsat'] += 1
        return Result(True, 'unsat')
    STATS['sat' if r == z3.sat else 'unknown'] += 1
    model = None
    if r == z3.sat:
        m = s.model()
        model = {}
        for t, zt in cx.memo.items():
            if t.op in ('var', 'app', 'idiv', 'imod') and t.sort in (INT, REAL, BOOL):
                try:
                    model[show(t, 6)] = str(m.eval(zt, model_completion=True))
                except Exception:
                    pass
    if DUMP_SLOW and dt > DUMP_SLOW:
        print('SLOW %.1fs %s %s' % (dt, r, show(goal)[:300]))
    return Result(False, 'unknown' if spurious else str(r), model)


def products(cx):
    """(value term, factor terms) of every product and inverse the query abstracts"""
    out = []
    for m in list(cx.intmono): out.append((cx.memo_mono(m), [cx.z(a) for a in m], None))
    for m in list(cx.realmono):
        fs = []
        for a, e in m:
            x = cx.z(a) if e > 0 else z3.Function('RINV', z3.RealSort(), z3.RealSort())(cx.z(a))
            fs += [x] * abs(e)
        out.append((z3.Function('RMUL%d' % len(fs), *([z3.RealSort()] * (len(fs) + 1)))(*fs), fs, None))
        for a, e in m:
            if e < 0: out.append((z3.Function('RINV', z3.RealSort(), z3.RealSort())(cx.z(a)), [cx.z(a)], 'inv'))
    return out


def refine(cx, s, until):
    """products are uninterpreted symbols with lemmas: a model that gives one a wrong value is no
    counterexample.  Add the lemmas that exclude it (products by the value taken, tangent planes)
    until the model is consistent, the query is refuted, or the time is over."""
    ps = products(cx)
    for rnd in range(24):
        if not ps: return z3.sat, False
        m = s.model()
        def num(t):
            v = m.eval(t, model_completion=True)
            if z3.is_int_value(v): return Fraction(v.as_long())
            if z3.is_rational_value(v): return Fraction(v.numerator_as_long(), v.denominator_as_long())
            return None
        new = []
        for v, fs, kind in ps:
            vs = [num(f) for f in fs]
            w = num(v)
            if w is None or any(x is None or abs(x.numerator) > 10**60 or x.denominator > 10**60 for x in vs + [w]): return z3.sat, True
            if kind == 'inv':
                if vs[0] != 0 and w * vs[0] != 1:
                    c = lit(vs[0], fs[0])
                    new += [z3.Implies(fs[0] == c, v * c == 1), z3.Implies(fs[0] > 0, v > 0), z3.Implies(fs[0] < 0, v < 0)]
                    # 1/x is convex and decreasing on either side of zero
                    new += [z3.Implies(fs[0] > 0, z3.Implies(fs[0] > c, v * c < 1)), z3.Implies(fs[0] > 0, z3.Implies(fs[0] < c, v * c > 1))] if vs[0] > 0 else []
                continue
            p = Fraction(1)
            for x in vs: p *= x
            if p == w: continue
            for i in range(len(fs)):
                # the other factors at the values they have: linear in factor i
                rest = Fraction(1); conds = []
                for k, (f, x) in enumerate(zip(fs, vs)):
                    if k != i: rest *= x; conds.append(f == lit(x, f))
                new.append(z3.Implies(z3.And(*conds), v == lit(rest, v) * fs[i]))
            if len(fs) == 2:
                (x, y), (a, b) = fs, vs
                A, B, AB = lit(a, x), lit(b, y), lit(a * b, v)
                new += [z3.Implies(z3.And(x >= A, y >= B), v >= B * x + A * y - AB), z3.Implies(z3.And(x <= A, y <= B), v >= B * x + A * y - AB),
                        z3.Implies(z3.And(x <= A, y >= B), v <= B * x + A * y - AB), z3.Implies(z3.And(x >= A, y <= B), v <= B * x + A * y - AB)]
            if v.sort() == z3.RealSort():
                new.append(z3.Implies(z3.And(*[f >= 0 for f in fs]), v >= 0))
                new.append(z3.Implies(z3.And(*[f > 0 for f in fs]), v > 0))
                new.append(z3.Implies(z3.Or(*[f == 0 for f in fs]), v == 0))
        if not new: return z3.sat, False
        left = until - time.time()
        if left <= 0.05: return z3.sat, True
        s.add(*new)
        s.set('timeout', int(left * 1000))
        r = s.check()
        if r != z3.sat: return r, True
    return z3.sat, True


def lit(c, like):
    return z3.IntVal(int(c)) if like.sort() == z3.IntSort() else z3.RealVal(str(c))


def factored(cx):
    """for every integer (in)equality: the part X*n with a common factor n has the sign of X*n"""
    out = []
    for t in list(cx.memo):
        if t.op not in ('ge0', 'gt0', 'eq0') or t.args[0].op != 'poly' or t.args[0].sort != INT: continue
        by = {}
        for m, c in t.args[0].args:
            fs = []
            for a, e in m: fs += [a] * e
            for n in set(fs):
                r = list(fs); r.remove(n)
                by.setdefault(n, []).append((tuple(r), c, m))
        for n, ts in by.items():
            if len(ts) < 2 or not any(len(r) for r, c, m in ts) or len(out) > 60: continue
            one = lambda r: z3.IntVal(1) if not r else cx.zprod(r)
            X = z3.Sum([z3.IntVal(int(c)) * one(r) for r, c, m in ts])
            M = z3.Sum([z3.IntVal(int(c)) * cx.mono(m, INT) for r, c, m in ts])
            zn = cx.z(n)
            out.append(z3.Implies(zn >= 0, z3.And(z3.Implies(X >= 0, M >= 0), z3.Implies(X <= 0, M <= 0), z3.Implies(X >= 1, M >= zn), z3.Implies(X <= -1, M <= -zn))))
    return out


DUMP_SLOW = float(os.environ.get('VC_SLOW', '0'))


def sum_congruence(hyps, a, b, timeout, depth):
    n1, b1, f1 = a.args
    n2, b2, f2 = b.args
    if not prove(hyps, eq(n1, n2), timeout, depth + 1):
        return False
    k = fresh('sc')
    g = eq(subst(f1, {b1: k}), subst(f2, {b2: k}))
    return bool(prove(hyps + [le(I(0), k), lt(k, n1)], g, timeout, depth + 1))


def lemmas(cx):
    out = factored(cx)
    done_pairs = set()
    done_divs = set()
    for _ in range(3):
        before = (len(cx.intmono), len(cx.divs))
        for (a, b) in list(cx.divs):
            if (a, b) in done_divs: continue
            done_divs.add((a, b))
            q = mk('idiv', (a, b), INT)
            r = mk('imod', (a, b), INT)
            prod = mul(q, b)
            z = cx.z
            out.append(z3.Implies(z3.And(z(b) > 0, z(a) >= 0),
                                  z3.And(z(a) == z(prod) + z(r), z(r) >= 0, z(r) < z(b), z(q) >= 0, z(q) <= z(a))))
        ms = list(cx.intmono)
        for i, m in enumerate(ms):
            zm = cx.memo_mono(m)
            if (m,) not in done_pairs:
                done_pairs.add((m,))
                fs = [cx.z(a) for a in m]
                out.append(z3.Implies(z3.And(*[f >= 0 for f in fs]), zm >= 0))
                out.append(z3.Implies(z3.Or(*[f == 0 for f in fs]), zm == 0))
                if len(m) == 2:
                    x, y = fs
                    out.append(z3.Implies(z3.And(x >= 1, y >= 1), z3.And(zm >= x, zm >= y, zm >= x + y - 1)))
                    out.append(z3.Implies(x == 1, zm == y))
                    out.append(z3.Implies(y == 1, zm == x))
                    for c in (2,3,4):
                        out.append(z3.Implies(x == c, zm == c*y))
                        out.append(z3.Implies(y == c, zm == c*x))
            for j in range(i):
                m2 = ms[j]
                if (m, m2) in done_pairs: continue
                done_pairs.add((m, m2))
                common = _common(m, m2)
                for n, x, y in common:
                    # x*n vs y*n with x,y single remaining products
                    zx, zy, zn = cx.zprod(x), cx.zprod(y), cx.z(n)
                    z2 = cx.memo_mono(m2)
                    out.append(z3.Implies(z3.And(zx < zy, zn >= 0), zm + zn <= z2))
                    out.append(z3.Implies(z3.And(zy < zx, zn >= 0), z2 + zn <= zm))
                    out.append(z3.Implies(zx == zy, zm == z2))
                    # neighbours: x = y + 1 gives equality with n
                    out.append(z3.Implies(zx == zy + 1, zm == z2 + zn))
                    out.append(z3.Implies(zy == zx + 1, z2 == zm + zn))
        if (len(cx.intmono), len(cx.divs)) == before:
            break
    for t in list(cx.memo):
        if t.op == 'app' and t.args[0] in ('wrap8', 'wrap16', 'wrap32', 'wrap64'):
            b = int(t.args[0][4:])
            v, x = cx.z(t.args[1]), cx.z(t)
            out.append(z3.Implies(v < 0, z3.And(x == v + (1 << b), x >= 1 << (b - 1))))
    if len(cx.strs) > 1:
        out.append(z3.Distinct(*[cx.z(t) for t in cx.strs]))
    return out


def _common(m, m2):
    res = []
    for n in set(m):
        if n in m2:
            a = list(m); a.remove(n)
            b = list(m2); b.remove(n)
            res.append((n, tuple(a), tuple(b)))
    return res


def _memo_mono(self, m):
    f = z3.Function('IMUL%d' % len(m), *([z3.IntSort()] * (len(m) + 1)))
    return f(*[self.z(a) for a in m])


def _zprod(self, fs):
    if len(fs) == 1:
        return self.z(fs[0])
    self.intmono.add(tuple(fs))
    return self.memo_mono(fs)


Ctx.memo_mono = _memo_mono
Ctx.zprod = _zprod


def feasible(hyps, timeout=2000):
    """False only if hyps are proved contradictory"""
    return not prove(hyps, FALSE, timeout)
