"""Exact algebra of finite sums: sums over c*n terms are split into c sums over n terms whose bodies are
simplified under 0 <= k < n, so that equalities between piecewise products become linear identities."""
from terms import *
import terms as T


class Split:
    def __init__(self, n, pc):
        self.n, self.pc = n, [h for h in pc if h.op != 'forall' and not any(x.op in ('sum', 'forall') for x in subterms(h))]
        self.memo = {}
        self.cond = {}

    def decide(self, c, pc, key):
        """TRUE, FALSE or c itself"""
        if c is TRUE or c is FALSE: return c
        k = (c, key)
        r = self.cond.get(k)
        if r is None:
            if prove(pc, c, timeout=2000): r = TRUE
            elif prove(pc, not_(c), timeout=2000): r = FALSE
            else: r = c
            self.cond[k] = r
        return r

    def simp(self, t, extra=()):
        """t with every decidable case distinction resolved and every sum split"""
        pc = self.pc + list(extra)
        key = tuple(extra)
        return self._s(t, pc, key, extra)

    def _s(self, t, pc, key, extra):
        m = (t, key)
        r = self.memo.get(m)
        if r is not None: return r
        r = self._s1(t, pc, key, extra)
        self.memo[m] = r
        return r

    def _s1(self, t, pc, key, extra):
        if not isinstance(t, Term): return t
        op = t.op
        if op in ('var', 'const', 'strlit', 'bv'): return t
        if op == 'ite':
            c = self._s(t.args[0], pc, key, extra)
            d = self.decide(c, pc, key)
            if d is TRUE: return self._s(t.args[1], pc, key, extra)
            if d is FALSE: return self._s(t.args[2], pc, key, extra)
            e1, e2 = tuple(extra) + (c,), tuple(extra) + (not_(c),)
            return ite(c, self._s(t.args[1], pc + [c], e1, e1), self._s(t.args[2], pc + [not_(c)], e2, e2))
        if op == 'sum':
            return self.sum(t, pc, key, extra)
        if op == 'forall': return t
        r = T.rebuild(t, lambda a: self._s(a, pc, key, extra))
        if r.op in ('idiv', 'imod', 'eq0', 'ge0') and cval(self.n) is None:
            r = divnorm(r, self.n, pc)
        return r

    def sum(self, t, pc, key, extra):
        N, b, body = t.args
        q, r = split_by(N, self.n)
        c = cval(q) if q is not None and r is not None and cval(r) == 0 else None
        if c is None or c < 1 or c > 64:
            k = fresh('sp')
            e2 = tuple(extra) + (le(I(0), k), lt(k, N))
            return self.collect(N, k, self._s(subst(body, {b: k}), pc + list(e2[len(extra):]), e2, e2), pc, key)
        res = const(0, t.sort)
        for p in range(int(c)):
            k = fresh('sp')
            e2 = tuple(extra) + (le(I(0), k), lt(k, self.n))
            bd = self._s(subst(body, {b: add(mul(I(p), self.n), k)}), pc + list(e2[len(extra):]), e2, e2)
            res = add(res, self.collect(self.n, k, bd, pc, key))
        return res

    def collect(self, n, k, body, pc, key):
        """sum over k < n, point contributions (cases k == e) taken out"""
        for x in subterms(body):
            if x.op == 'ite' and k in fv(x) and x.sort != BOOL:
                e = point(x.args[0], k)
                if e is not None:
                    inr = self.decide(and_(le(I(0), e), lt(e, n)), pc, key)
                    eqt, neq = replace(body, x, x.args[1]), replace(body, x, x.args[2])
                    rest = self.collect(n, k, neq, pc, key)
                    d = subst(add(eqt, mul(const(-1, body.sort), neq)), {k: e})
                    if inr is TRUE: return add(rest, d)
                    if inr is FALSE: return rest
                    return add(rest, ite(inr, d, const(0, body.sort)))
        return sum_body(n, k, expand(body))


def expand(t): return t


def point(c, k):
    """e when the condition c is k == e"""
    if c.op != 'eq0': return None
    p = c.args[0]
    m = monos(p)
    key = ((k, 1),)
    if key not in m or abs(m[key]) != 1: return None
    rest = {a: v for a, v in m.items() if a != key}
    if any(k in fv(x) for a in rest for x, _ in a): return None
    e = from_monos(rest, INT)
    return mul(I(-1), e) if m[key] == 1 else e


def replace(t, x, y): return replace_terms(t, {x: y})


def instantiate(h, terms_):
    """nested quantified fact h instantiated with the given index terms, outermost first; guards stay"""
    for x in terms_:
        g = []
        while h.op != 'forall':
            if h.op == 'or':
                qs = [a for a in h.args if a.op == 'forall']
                if len(qs) != 1: return None
                g += [a for a in h.args if a is not qs[0]]
                h = qs[0]
            else: return None
        h = or_(*(g + [subst(h.args[1], {h.args[0]: x})]))
    return h


def divnorm(t, n, pc):
    """t with quotients, remainders and (in)equalities between multiples of n plus a bounded rest resolved"""
    memo = {}
    known = {}
    def kn(c):
        if c is TRUE: return True
        if c is FALSE: return False
        r = known.get(c)
        if r is None: r = known[c] = bool(prove(pc, c, timeout=1500))
        return r
    def split(x):
        q, r = split_by(x, n)
        return (None, None) if q is None or r is None else (q, r)
    def go(x):
        r = memo.get(x)
        if r is not None: return r
        y = T.rebuild(x, go) if x.op not in ('sum', 'forall') else x
        if y.op == 'poly' or y.op == 'var': r = y
        else: r = step(y)
        memo[x] = r
        return r
    def step(y):
        if y.op in ('idiv', 'imod') and y.args[1] is n:
            q, r = split(y.args[0])
            if q is not None:
                if kn(and_(le(I(0), r), lt(r, n))): return q if y.op == 'idiv' else r
                if kn(and_(le(neg(n), r), lt(r, I(0)))): return add(q, I(-1)) if y.op == 'idiv' else add(r, n)
        if y.op == 'eq0' and y.args[0].sort == INT:
            q, r = split(y.args[0])
            if q is not None and q is not I(0) and r is not y.args[0] and kn(and_(lt(neg(n), r), lt(r, n))):
                return and_(eq(q, I(0)), eq(r, I(0)))
        if y.op == 'ge0' and y.args[0].sort == INT:
            q, r = split(y.args[0])
            if q is not None and cval(q) is None:
                if kn(and_(le(I(0), r), lt(r, n))): return le(I(0), q)
                if kn(and_(le(neg(n), r), lt(r, I(0)))): return le(I(1), q)
        return y
    return go(t)


def divisors(t):
    return [n for n in {x.args[1] for x in subterms(t) if x.op in ('idiv', 'imod') and cval(x.args[1]) is None}]


def first_case(t):
    """outermost condition of a case distinction in t"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop(0)
        if x in seen: continue
        seen.add(x)
        if x.op == 'ite' and not any(b.args[0].startswith('$') for b in fv(x.args[0])): return x.args[0]
        if x.op in ('sum', 'forall'): continue
        if x.op == 'poly': todo += [a for m, c in x.args for a, e in m]
        else: todo += [a for a in x.args if isinstance(a, Term)]
    return None


def assign(t, c, v):
    """t where condition c (or a conjunct of it) is known to be v"""
    mp = {c: v}
    if v is TRUE and c.op == 'and': mp.update({a: TRUE for a in c.args})
    if v is FALSE and c.op == 'or': mp.update({a: FALSE for a in c.args})
    return replace_terms(t, mp)


def by_cases(pc, goal, left, timeout=4000):
    """proof of goal by splitting on its case distinctions; left: [number of leaves allowed]. Returns a Result"""
    if goal is TRUE: return T.Result(True, 'unsat')
    c = first_case(goal)
    if c is None or left[0] <= 0:
        left[0] -= 1
        return prove(pc, goal, timeout=timeout)
    for v, h in ((TRUE, c), (FALSE, not_(c))):
        if prove(pc, not_(h), timeout=1000): continue
        left[0] -= 1
        r = by_cases(pc + [h], assign(goal, c, v), left, timeout)
        if not r: return r
    return T.Result(True, 'unsat')


def div_prove(pc, q, finish, depth=0):
    """proof of q by replacing an index x with rest + b*B + R, 0 <= R < b, for every division (x - rest) / b in q; remainders by a
    literal are enumerated. finish(pc, q): the proof once no division is left"""
    if q is TRUE: return True
    pc = [h for h in pc if h.op != 'forall']
    ds = [x for x in subterms(q) if x.op in ('idiv', 'imod') and not any(y.op in ('idiv', 'imod') for a in x.args for y in subterms(a))]
    if not ds or depth > 4: return finish(pc, q)
    ds.sort(key=lambda x: (cval(x.args[1]) is not None, -len(fv(x.args[1])), repr(x)))
    b = ds[0].args[1]
    if b is I(0): return False
    for x in ds:
        if x.args[1] is not b: continue
        a = x.args[0]
        for v in sorted(fv(a) - fv(b), key=lambda v: (v.args[0].startswith('k!') is False, v.args[0])):
            ms = monos(a)
            if ms.get(((v, 1),)) != 1: continue
            rest = a - v
            if v in fv(rest): continue
            B, R_ = fresh('b'), fresh('r')
            new = b * B + R_ - rest
            facts = [le(I(0), R_), lt(R_, b), le(I(1), b)]
            if not prove(pc, le(I(1), b), timeout=1000): return False
            sub = {v: new}
            pc2 = [subst(h, sub) for h in pc] + facts
            q2 = subst(q, sub)
            c = cval(b)
            if c is not None:
                if c > 64: return False
                for r in range(int(c)):
                    s2 = {R_: I(r)}
                    pc3 = [subst(h, s2) for h in pc2]
                    q3 = divnorm(subst(q2, s2), b, pc3)
                    if not div_prove(pc3, q3, finish, depth + 1): return False
                return True
            q2 = divnorm(divnorm(q2, b, pc2), b, pc2)
            if b not in (x.args[1] for x in subterms(q2) if x.op in ('idiv', 'imod')): return div_prove(pc2, q2, finish, depth + 1)
            return finish(pc2, q2)
    return finish(pc, q)


def tight(pc, q):
    """equations x == e given as two inequalities among the hypotheses are used as substitutions"""
    for _ in range(6):
        flat = []
        for h in pc: flat += list(h.args) if h.op == 'and' else [h]
        ge = {h.args[0] for h in flat if h.op == 'ge0' and h.args[0].sort == INT}
        hit = None
        for p in ge:
            if cval(p) is None and mul(I(-1), p) in ge:
                for v in sorted(fv(p), key=lambda v: v.args[0]):
                    c = monos(p).get(((v, 1),))
                    if c is not None and abs(c) == 1:
                        rest = p - I(int(c)) * v
                        if v not in fv(rest):
                            hit = {v: rest if c == -1 else mul(I(-1), rest)}
                            break
            if hit: break
        if not hit: return pc, q
        pc, q = [subst(h, hit) for h in pc], subst(q, hit)
        if q is TRUE: break
    return pc, q


def cases_prove(pc, goal, left):
    """as by_cases, with such equations used at the leaves"""
    if goal is TRUE: return True
    pc, goal = tight(pc, goal)
    if goal is TRUE: return True
    c = first_case(goal)
    if c is None: return bool(prove(pc, goal, timeout=3000))
    if left[0] <= 0: return False
    for v, h in ((TRUE, c), (FALSE, not_(c))):
        if prove(pc, not_(h), timeout=1000): continue
        left[0] -= 1
        if not cases_prove(pc + [h], assign(goal, c, v), left): return False
    return True
