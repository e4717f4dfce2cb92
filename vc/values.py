"""Values and memory for symbolic execution."""
from terms import *
import terms as T


class Unsupported(Exception):
    """a construct outside the translator's reach (never reported as a violation)"""


class _Hook:
    pc = ()      # facts that hold where values are being read (set by the engine)


def resolve(idx, nc):
    """(row, column) of flat index idx in rows of length nc, or None when not evident"""
    q, r = split_by(idx, nc)
    if r is None or q is None or (r is idx and cval(idx) is None):
        mp = T.equalities(_Hook.pc)
        if mp:
            i2, n2 = T.subst(idx, mp), T.subst(nc, mp)
            if i2 is not idx or n2 is not nc:
                q2, r2 = split_by(i2, n2)
                if q2 is not None and r2 is not None: q, r = q2, r2
    if r is None or q is None:
        return None
    if prove(_Hook.pc, and_(le(I(0), r), lt(r, nc)), timeout=1500):
        return q, r
    if nc.op == 'poly' and len(T.monos(nc)) > 1:
        for q2, r2 in T.split_by(idx, nc, True):
            if r2 is not r and r2 is not idx and prove(_Hook.pc, and_(le(I(0), r2), lt(r2, nc)), timeout=1500): return q2, r2
    return None


class Lam:
    """array content: index variables -> value; nc given: two-dimensional row-major view"""
    __slots__ = ('ks', 'body', 'nc')

    def __init__(self, ks, body, nc=None):
        self.ks = ks if isinstance(ks, tuple) else (ks,)
        self.body, self.nc = body, nc

    @property
    def k(self): return self.ks[0]

    def get(self, i):
        if self.nc is None:
            return vsubst(self.body, {self.ks[0]: i})
        qr = resolve(i, self.nc)
        if qr is None:
            qr = (idiv(i, self.nc), imod(i, self.nc))
        return self.get2(*qr)

    def get2(self, i, j):
        if self.nc is None:
            raise Unsupported('2-d read of flat array')
        return vsubst(self.body, {self.ks[0]: i, self.ks[1]: j})

    def at(self, ks):
        return vsubst(self.body, dict(zip(self.ks, ks)))

    def put(self, idx, v):
        ks = tuple(fresh('k') for _ in self.ks)
        old = self.at(ks)
        if self.nc is None:
            g = eq(ks[0], idx)
        else:
            qr = resolve(idx, self.nc)
            if qr is not None:
                g = and_(eq(ks[0], qr[0]), eq(ks[1], qr[1]))
            else:
                g = eq(ks[0] * self.nc + ks[1], idx)
        return Lam(ks, vmerge(g, v, old), self.nc)

    def flat(self, ks):
        """flat index of key tuple"""
        return ks[0] if self.nc is None else ks[0] * self.nc + ks[1]

    @staticmethod
    def fn(f, name='k'):
        k = fresh(name)
        return Lam(k, f(k))

    @staticmethod
    def fn2(f, nc):
        i, j = fresh('i'), fresh('j')
        return Lam((i, j), f(i, j), nc)


def lam_pair(la, lb):
    """bring two contents to common keys: (ks, body_a, body_b, nc)"""
    if la.nc is not None and la.nc is lb.nc:
        ks = (fresh('i'), fresh('j'))
        return ks, la.at(ks), lb.at(ks), la.nc
    if la.nc is None and lb.nc is None:
        ks = (fresh('k'),)
        return ks, la.at(ks), lb.at(ks), None
    n = la.nc if la.nc is not None else lb.nc
    if (la.nc is None) != (lb.nc is None):
        ks = (fresh('i'), fresh('j'))
        f = ks[0] * n + ks[1]
        A = la.at(ks) if la.nc is not None else la.get(f)
        B = lb.at(ks) if lb.nc is not None else lb.get(f)
        return ks, A, B, n
    ks = (fresh('k'),)
    return ks, la.get(ks[0]), lb.get(ks[0]), None


class Struct:
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f): self.cls, self.f = cls, f

    def set(self, name, v):
        d = dict(self.f)
        d[name] = v
        return Struct(self.cls, d)

    def __getitem__(self, n): return self.f[n]


class Vec:
    """std::vector / C array / initializer_list; either concrete elems or len+lam"""
    __slots__ = ('elems', 'len', 'lam', 'et')

    def __init__(self, et, elems=None, len=None, lam=None):
        self.et = et
        self.elems = elems
        self.len = I(elems.__len__()) if elems is not None else len
        self.lam = lam

    def tolam(self):
        if self.elems is None:
            return self.lam
        if not self.elems:
            return Lam.fn(lambda k: default_value(self.et))
        k = fresh('k')
        body = self.elems[-1]
        for i in range(len(self.elems) - 2, -1, -1):
            body = vmerge(eq(k, I(i)), self.elems[i], body)
        return Lam(k, body)

    def generic(self):
        return Vec(self.et, None, self.len, self.tolam()) if self.elems is not None else self

    def get(self, i):
        if self.elems is not None:
            c = cval(i)
            if c is not None and 0 <= c < len(self.elems):
                return self.elems[int(c)]
        return self.tolam().get(i) if self.elems is not None else self.lam.get(i)

    def put(self, i, v):
        if self.elems is not None:
            c = cval(i)
            if c is not None and 0 <= c < len(self.elems):
                e = list(self.elems)
                e[int(c)] = v
                return Vec(self.et, e)
            if len(self.elems) <= 16:
                return Vec(self.et, [vmerge(eq(i, I(j)), v, x) for j, x in enumerate(self.elems)])
        l = self.tolam() if self.elems is not None else self.lam
        return Vec(self.et, None, self.len, l.put(i, v))


class Ptr:
    """pointer, iterator; loc None = null; null: condition under which it is null"""
    __slots__ = ('loc', 'null')

    def __init__(self, loc, null=FALSE):
        self.loc = loc
        self.null = TRUE if loc is None else null


class Closure:
    def __init__(self, node, env, this, prog):
        self.node, self.env, self.this, self.prog = node, env, this, prog


class FnVal:
    """symbolic std::function"""
    def __init__(self, name, call): self.name, self.call = name, call


class Opaque:
    def __init__(self, what): self.what = what
    def __repr__(self): return 'Opaque(%s)' % self.what


class MapV:
    """std::map<std::string, T>/DataCache content: has(key) -> Bool, get(key) -> value ; key is a Str term"""
    __slots__ = ('et', 'k', 'has', 'val', 'count')

    def __init__(self, et, k, has, val): self.et, self.k, self.has, self.val = et, k, has, val

    def has_at(self, key): return T.subst(self.has, {self.k: key})
    def at(self, key): return vsubst(self.val, {self.k: key})

    def put(self, key, v):
        k = fresh('mk', 'Str')
        return MapV(self.et, k, or_(eq(k, key), self.has_at(k)), vmerge(eq(k, key), v, self.at(k)))

    def erase(self, key):
        k = fresh('mk', 'Str')
        return MapV(self.et, k, and_(ne(k, key), self.has_at(k)), self.at(k))


class Conflict:
    """merge of incompatible values; reading it is unsupported"""
    def __init__(self, c, a, b): self.c, self.a, self.b = c, a, b


UNINIT = Opaque('uninitialised')


def vsubst(v, mp):
    if isinstance(v, Term):
        return T.subst(v, mp)
    if isinstance(v, Struct):
        ch = False
        d = {}
        for n, x in v.f.items():
            y = vsubst(x, mp)
            ch |= y is not x
            d[n] = y
        return Struct(v.cls, d) if ch else v
    if isinstance(v, Vec):
        if v.elems is not None:
            e = [vsubst(x, mp) for x in v.elems]
            if all(a is b for a, b in zip(e, v.elems)):
                return v
            return Vec(v.et, e)
        n = T.subst(v.len, mp)
        b = vsubst(v.lam.body, mp)
        if n is v.len and b is v.lam.body and (v.lam.nc is None or T.subst(v.lam.nc, mp) is v.lam.nc):
            return v
        # capture: lam.k is always a globally fresh variable
        nc = T.subst(v.lam.nc, mp) if v.lam.nc is not None else None
        return Vec(v.et, None, n, Lam(v.lam.ks, b, nc))
    if isinstance(v, Ptr):
        if v.loc is None:
            return v
        cell, path = v.loc
        p = tuple((a, T.subst(b, mp)) if isinstance(b, Term) else (a, b) for a, b in path)
        n = T.subst(v.null, mp)
        if n is v.null and all(x[1] is y[1] for x, y in zip(p, path)):
            return v
        return Ptr((cell, p), n)
    if isinstance(v, MapV):
        return MapV(v.et, v.k, T.subst(v.has, mp), vsubst(v.val, mp))
    if isinstance(v, Conflict):
        return Conflict(T.subst(v.c, mp), vsubst(v.a, mp), vsubst(v.b, mp))
    return v


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Struct) and isinstance(b, Struct):
        return a.cls == b.cls and a.f.keys() == b.f.keys() and all(same(a.f[n], b.f[n]) for n in a.f)
    if isinstance(a, Vec) and isinstance(b, Vec):
        if a.elems is not None and b.elems is not None:
            return len(a.elems) == len(b.elems) and all(same(x, y) for x, y in zip(a.elems, b.elems))
        if a.len is not b.len:
            return False
        la, lb = a.tolam(), b.tolam()
        if la is lb or (la.ks == lb.ks and la.nc is lb.nc and same(la.body, lb.body)):
            return True
        if la.nc is not lb.nc:
            return False
        return same(la.body, lb.at(la.ks))
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.null is not b.null:
            return False
        if a.loc is None or b.loc is None:
            return a.loc is b.loc
        return a.loc[0] == b.loc[0] and len(a.loc[1]) == len(b.loc[1]) and \
            all(x[0] == y[0] and x[1] == y[1] for x, y in zip(a.loc[1], b.loc[1]))
    if isinstance(a, MapV) and isinstance(b, MapV):
        return T.subst(b.has, {b.k: a.k}) is a.has and same(vsubst(b.val, {b.k: a.k}), a.val)
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a.what == b.what
    if isinstance(a, Conflict) and isinstance(b, Conflict):
        return a.c is b.c and same(a.a, b.a) and same(a.b, b.b)
    if isinstance(a, Closure) and isinstance(b, Closure):
        return a.node is b.node and a.env is b.env
    return False


def vmerge(c, a, b):
    """value of (c ? a : b)"""
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b or same(a, b):
        return a
    if isinstance(a, Term) and isinstance(b, Term):
        return ite(c, a, b)
    if isinstance(a, Opaque) and a.what == 'uninitialised': return b
    if isinstance(b, Opaque) and b.what == 'uninitialised': return a
    if isinstance(a, Struct) and isinstance(b, Struct) and a.f.keys() == b.f.keys():
        return Struct(a.cls, {n: vmerge(c, a.f[n], b.f[n]) for n in a.f})
    if isinstance(a, Vec) and isinstance(b, Vec):
        if a.elems is not None and b.elems is not None and len(a.elems) == len(b.elems):
            return Vec(a.et, [vmerge(c, x, y) for x, y in zip(a.elems, b.elems)])
        ks, A, B, nc = lam_pair(a.tolam(), b.tolam())
        return Vec(a.et, None, ite(c, a.len, b.len), Lam(ks, vmerge(c, A, B), nc))
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.loc is None and b.loc is None: return a
        if a.loc is None: return Ptr(b.loc, or_(c, b.null))
        if b.loc is None: return Ptr(a.loc, or_(not_(c), a.null))
        if a.loc[0] == b.loc[0] and len(a.loc[1]) == len(b.loc[1]) and all(
                x[0] == y[0] and (x[1] == y[1] or isinstance(x[1], Term)) for x, y in zip(a.loc[1], b.loc[1])):
            p = tuple((x[0], ite(c, x[1], y[1]) if isinstance(x[1], Term) else x[1]) for x, y in zip(a.loc[1], b.loc[1]))
            return Ptr((a.loc[0], p), ite(c, a.null, b.null))
    if isinstance(a, MapV) and isinstance(b, MapV):
        k = fresh('mk', 'Str')
        return MapV(a.et, k, ite(c, a.has_at(k), b.has_at(k)), vmerge(c, a.at(k), b.at(k)))
    return Conflict(c, a, b)


_defaults = {}


def default_value(et):
    if et in ('double', 'float', 'real'):
        return R(0)
    if et in ('int', 'bool', 'unsigned long', 'char') or et.endswith('int') or et.endswith('long'):
        return I(0) if et != 'bool' else FALSE
    f = _defaults.get(et)
    if f:
        return f()
    return UNINIT


def leaves(v, path=()):
    """scalar / length / content leaves of a value tree"""
    if isinstance(v, Struct):
        for n in v.f:
            yield from leaves(v.f[n], path + (('f', n),))
    elif isinstance(v, Vec) and v.elems is not None:
        yield path, v
    elif isinstance(v, Vec):
        yield path + (('len', None),), v.len
        yield path + (('lam', None),), v.lam
    else:
        yield path, v


def vget(v, path):
    for kind, x in path:
        if kind == 'f':
            if not isinstance(v, Struct):
                raise Unsupported('field %s of %r' % (x, type(v).__name__))
            v = v.f[x]
        elif kind == 'i':
            if isinstance(v, Vec):
                v = v.get(x)
            else:
                if cval(x) == 0:
                    continue
                raise Unsupported('index into %r' % type(v).__name__)
        elif kind == 'key':
            v = v.at(x)
        elif kind == 'len': v = v.len
        elif kind == 'lam': v = v.lam
        else:
            raise Unsupported('path %s' % kind)
    return v


def vput(v, path, nv):
    if not path:
        return nv
    (kind, x), rest = path[0], path[1:]
    if kind == 'f':
        if not isinstance(v, Struct):
            raise Unsupported('store to field %s of %r' % (x, v))
        return v.set(x, vput(v.f[x], rest, nv))
    if kind == 'i':
        if isinstance(v, Vec):
            return v.put(x, vput(v.get(x), rest, nv) if rest else nv)
        if cval(x) == 0:
            return vput(v, rest, nv)
        raise Unsupported('indexed store into %r' % type(v).__name__)
    if kind == 'key':
        return v.put(x, vput(v.at(x), rest, nv) if rest else nv)
    if kind == 'len':
        return Vec(v.et, None, nv, v.tolam())
    if kind == 'lam':
        return Vec(v.et, None, v.len, nv)
    raise Unsupported('path %s' % kind)
