"""Models of what lies outside /repo: the C++ standard library containers and algorithms the code uses,
BLAS/LAPACK, PETSc, MPI, p4est.  Each use is recorded (engine.assumed) and listed as trusted."""
import re
from terms import *
import terms as T
from values import *
import values as V
import cast, engine
from engine import strlit, FnRef, OpaqueLV, Dead, Throw
from contract import Sym, ANY

METH = {}
FUN = {}
USER = {}


def meth(*names):
    def d(f):
        for n in names: METH[n] = f
        return f
    return d


def fun(*names):
    def d(f):
        for n in names: FUN[n] = f
        return f
    return d


def user(key):
    def d(f):
        USER[key] = f
        return f
    return d


def note(eng, what): eng.assumed.add(what)


def wrapped(n):
    """condition under which the size_t n is the image of a negative int"""
    if n.op == 'ite' and n.args[2].op == 'app' and n.args[2].args[0] == 'wrap64': return not_(n.args[0])
    if n.op == 'app' and n.args[0] == 'wrap64': return TRUE
    c = cval(n)
    if c is not None: return TRUE if c >= 2 ** 62 else FALSE
    if n.op == 'poly' and cval(n - 2 ** 64) is None and dict(n.args).get(()) is not None and dict(n.args)[()] >= 2 ** 62: return TRUE
    return FALSE


class Ext:
    def user(self, eng, f):
        h = USER.get(f.key)
        if h is not None: note(eng, 'model of %s' % f.key)
        return h

    def global_var(self, eng, st, name, t):
        h = GLOBALS.get(name)
        return h(eng, st) if h else None

    def member(self, eng, st, lv, name):
        if lv[1] and lv[1][-1][0] == 'key' and name in ('first', 'second'):
            return lv if name == 'second' else eng.alloc(st, lv[1][-1][1])
        return None

    def range_for(self, eng, st, n, fr, rng, lv_, body):
        return None

    # ---------------------------------------------------------------- construction of std objects
    def construct(self, eng, st, t, k, x, args, fr, n):
        tn = cast.norm_type(t)
        if k == 'vec':
            real = [a for a in args if not ('allocator' in cast.qt(a))]
            if not real: return Vec(x, [])
            if len(real) == 1:
                a = real[0]
                at = eng.tclass(cast.qt(a))
                if at[0] == 'vec': return eng.rv(st, a, fr)
                if at[0] == 'int' or (at[0] == 'bool'):
                    ln = eng.rv(st, a, fr)
                    return self.sized(eng, st, x, ln, lambda: eng.zero(st, x))
                v = eng.rv(st, a, fr)
                if isinstance(v, Vec): return v
                raise Unsupported('vector from %s' % cast.qt(a))
            if len(real) == 2:
                a, b = real
                ka = eng.tclass(cast.qt(a))[0]
                if ka in ('int', 'bool'):
                    ln = eng.rv(st, a, fr)
                    v = eng.rv(st, b, fr)
                    return self.sized(eng, st, x, ln, lambda: v)
                pa, pb = eng.rv(st, a, fr), eng.rv(st, b, fr)
                if isinstance(pa, Ptr) and isinstance(pb, Ptr):
                    return slice_(eng, st, pa, pb, x)
                raise Unsupported('vector constructor')
        if k == 'str':
            if not args: return strlit('')
            args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr' and 'allocator' not in cast.qt(a)]
            v = eng.rv(st, args[0], fr)
            if len(args) == 2:
                m = eng.rv(st, args[1], fr)
                if isinstance(v, StrIt) and isinstance(m, StrIt) and v.end in (False, 'p') and (v.end or m.end != True) and m.end in (True, 'p'):
                    src, o_, c_ = str_span(eng, st, v, m)
                    return substr(eng, st, src, o_, c_)
                if isinstance(v, StrIt) and isinstance(m, StrIt) and v.lv == m.lv and (v.end, m.end) in ((False, True), ('r', 'rend')):
                    src = eng.peek(st, v.lv)
                    return src if v.end is False else reversed_text(eng, st, src)
                if hasattr(v, 'lv') and isinstance(m, Term) and m.sort == INT:
                    src = eng.peek(st, v.lv)
                    len_facts(st, src)
                    eng.oblige(st, 'the characters copied into a string exist', and_(le(I(0), m), le(m, strlen(src))))
                    return src if eng.known(st, eq(m, strlen(src))) else substr(eng, st, src, I(0), m)
                if isinstance(v, Term) and v.sort == INT and isinstance(m, Term) and m.sort == INT:
                    r = fresh('str', 'Str')
                    st.assume(eq(strlen(r), v))
                    return r
                if isinstance(v, Ptr) and isinstance(m, Term) and m.sort == INT and v.loc is not None and v.loc[1] and v.loc[1][-1][0] == 'i':
                    buf = eng.peek(st, (v.loc[0], v.loc[1][:-1]))
                    if isinstance(buf, Vec):
                        eng.oblige(st, 'the characters copied into a string exist', and_(le(I(0), m), le(v.loc[1][-1][1] + m, buf.len)))
                        r = fresh('str', 'Str')
                        st.assume(eq(strlen(r), m))
                        return r
                raise Unsupported('string constructor')
            if isinstance(v, Term) and v.sort == 'Str': return v
            if isinstance(v, Opaque): return fresh('str', 'Str')
            raise Unsupported('string constructor')
        if k == 'ptr':
            if not args: return UNINIT
            return eng.rv(st, args[0], fr)
        if k == 'fn':
            if not args: return Opaque('null function')
            return eng.rv(st, args[0], fr)
        if k == 'map':
            if not args: return eng.default(st, t)
            if len(args) == 1:
                v = eng.rv(st, args[0], fr)
                if isinstance(v, MapV): return v
            raise Unsupported('map constructor')
        if k in ('int', 'real', 'bool'):
            return eng.rv(st, args[0], fr) if args else eng.zero(st, t)
        if k == 'variant':
            return engine.VARIANTS.convert(x, eng.rv(st, args[0], fr)) if args else engine.VARIANTS.empty(x)
        h = CONSTRUCT.get(tn.split('<')[0])
        if h is not None: return h(eng, st, tn, args, fr, n)
        if len(args) == 1:
            return eng.rv(st, args[0], fr)
        if not args: return Opaque(tn)
        return Opaque(tn)

    def sized(self, eng, st, et, n, mkv):
        c = cval(n)
        if c is not None and 0 <= c <= 16:
            return Vec(et, [mkv() for _ in range(int(c))])
        # a negative number converted to size_t is far beyond max_size(): std::length_error
        neg_ = wrapped(n)
        if neg_ is not FALSE:
            if not eng.known(st, not_(neg_)):
                eng.throws.append(Throw(st.fork(neg_), 'std::length_error', 'std::vector'))
                if eng.known(st, neg_): raise Dead()
            st.assume(not_(neg_))
            n = n.args[1]
        note(eng, 'memory allocation succeeds (sizes below 2^60)')
        v = mkv()
        k = fresh('k')
        return Vec(et, None, n, Lam(k, v))

    # ---------------------------------------------------------------- methods
    def method(self, eng, st, this, name, args, fr, n, basetype):
        v = eng.peek(st, this)
        if isinstance(v, Conflict): v = eng.unconflict(st, v)
        if isinstance(v, Vec): h = METH.get('vec.' + name)
        elif isinstance(v, MapV): h = METH.get('map.' + name)
        elif isinstance(v, Ptr): h = METH.get('ptr.' + name)
        elif isinstance(v, Term) and v.sort == 'Str': h = METH.get('str.' + name)
        elif isinstance(v, Opaque): return self.opaque_method(eng, st, v.what, name, args, fr, n, this)
        else: h = None
        if h is None:
            h = METH.get('any.' + name)
        if h is None and isinstance(v, engine.Closure) and re.match(r'operator .*\(\*\)', name): return ('val', v)
        if h is None: raise Unsupported('method %s of %s' % (name, basetype))
        return h(eng, st, this, v, args, fr, n)

    def opaque_method(self, eng, st, what, name, args, fr, n, this=None):
        for p, h in OPAQUE:
            if what.startswith(p): return h(eng, st, what, name, args, fr, n, this)
        raise Unsupported('method %s of %s' % (name, what))

    # ---------------------------------------------------------------- operators
    def operator(self, eng, st, name, args, fr, n, d):
        op = name[8:]
        if op == '<<' or op == '>>':
            t = cast.qt(args[0])
            if 'stream' in t or 'ostream' in cast.norm_type(cast.qt(n)):
                return self.stream(eng, st, op, args, fr, n)
        if op == '[]':
            try: this = eng.lv(st, args[0], fr)
            except OpaqueLV as e: return ('val', Opaque(e.what))
            v = eng.peek(st, this)
            if isinstance(v, Conflict): v = eng.unconflict(st, v)
            if isinstance(v, MapV):
                key = eng.rv(st, args[1], fr)
                return ('lv', map_index(eng, st, this, v, key))
            i = eng.rv(st, args[1], fr)
            if isinstance(v, Ptr):
                return ('lv', eng.deref(st, eng.ptr_add(st, v, i)))
            if isinstance(v, Vec):
                return ('lv', (this[0], this[1] + (('i', i),)))
            if isinstance(v, Term) and v.sort == 'Str':
                return ('val', engine.CHARAT(eng, st, v, i))
            if isinstance(v, Opaque) and v.what in ('timers',): return ('lv', eng.alloc(st, Opaque('timer')))
            raise Unsupported('operator[] on %r' % (v,))
        if op in ('*', '->') and len(args) == 1:
            p = eng.rv(st, args[0], fr)
            if isinstance(p, StrIt): return ('lv', eng.alloc(st, engine.CHARAT(eng, st, eng.peek(st, p.lv), str_off(eng, st, p))))
            if op == '*': return ('lv', eng.deref(st, p))
            return ('val', p)
        if op in ('++', '--'):
            lv = eng.lv(st, args[0], fr)
            old = eng.load(st, lv)
            if isinstance(old, MapIt):
                eng.put(st, lv, Opaque('next element of a map'))
                return ('val', Opaque('iterator')) if len(args) == 2 else ('lv', lv)
            new = eng.step(st, old, 1 if op == '++' else -1)
            eng.put(st, lv, new)
            return ('val', old) if len(args) == 2 else ('lv', lv)
        if op == '=':
            lv = eng.lv(st, args[0], fr)
            v = eng.rv(st, args[1], fr)
            old = eng.peek(st, lv)
            if isinstance(old, Opaque) and isinstance(v, Opaque): return ('lv', lv)
            k, x = eng.tclass(cast.qt(n))
            if k == 'variant': v = engine.VARIANTS.convert(x, v)
            eng.put(st, lv, v)
            return ('lv', lv)
        if op in ('+=', '-='):
            lv = eng.lv(st, args[0], fr)
            a = eng.load(st, lv)
            b = eng.rv(st, args[1], fr)
            if isinstance(a, Term) and a.sort == 'Str':
                eng.put(st, lv, strcat(a, tostr(b)))
            elif isinstance(a, Ptr):
                eng.put(st, lv, eng.ptr_add(st, a, b if op == '+=' else -b))
            else: raise Unsupported('operator%s' % op)
            return ('lv', lv)
        if len(args) == 2:
            a, b = eng.rv(st, args[0], fr), eng.rv(st, args[1], fr)
            if isinstance(a, StrIt) and isinstance(b, Term) and op in ('+', '-'):
                return ('val', StrIt(a.lv, 'p', str_off(eng, st, a) + (b if op == '+' else -b)))
            if isinstance(a, StrIt) and isinstance(b, StrIt) and a.lv == b.lv:
                return ('val', eng.binop(st, op, str_off(eng, st, a), str_off(eng, st, b), 'bool'))
            if op == '+' and (isstr(a) or isstr(b)):
                return ('val', strcat(tostr(a), tostr(b)))
            if op in ('==', '!=') and isstr(a) and isstr(b):
                e = eq(a, b)
                return ('val', e if op == '==' else not_(e))
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                return ('val', eng.ptr_op(st, op, a, b))
            if isinstance(a, Vec) and isinstance(b, Vec) and op in ('==', '!='):
                return ('val', vec_equal(eng, st, a, b) if op == '==' else not_(vec_equal(eng, st, a, b)))
        raise Unsupported('operator%s' % op)

    def stream(self, eng, st, op, args, fr, n):
        try: lv = eng.lv(st, args[0], fr)
        except OpaqueLV as e: return ('val', Opaque('stream'))
        v = eng.peek(st, lv)
        h = STREAM.get(op)
        if h is not None:
            r = h(eng, st, lv, v, args[1], fr)
            if r is not None: return r
        return ('lv', lv)

    # ---------------------------------------------------------------- functions
    def models(self, name): return name in FUN

    def function(self, eng, st, name, args, fr, n, d):
        h = FUN.get(name)
        if h is None: raise Unsupported('external function %s' % name)
        return h(eng, st, args, fr, n)


GLOBALS = {}
CONSTRUCT = {}
OPAQUE = []
STREAM = {}


def isstr(a): return isinstance(a, Term) and a.sort == 'Str'


def tostr(a):
    if isstr(a): return a
    if isinstance(a, Term):
        c = cval(a)
        return app('char2str', [a], 'Str')
    return fresh('str', 'Str')


def strcat(a, b):
    if a.op == 'strlit' and b.op == 'strlit': return strlit(a.args[0] + b.args[0])
    if a.op == 'strlit' and a.args[0] == '': return b
    if b.op == 'strlit' and b.args[0] == '': return a
    if b.op == 'app' and b.args[0] == 'strcat': return strcat(strcat(a, b.args[1]), b.args[2])
    if b.op == 'strlit' and a.op == 'app' and a.args[0] == 'strcat' and a.args[2].op == 'strlit':
        return strcat(a.args[1], strlit(a.args[2].args[0] + b.args[0]))
    return app('strcat', [a, b], 'Str')


def simp_under(eng, st, t):
    if t.op == 'ite':
        if eng.known(st, t.args[0]): return simp_under(eng, st, t.args[1])
        if eng.known(st, not_(t.args[0])): return simp_under(eng, st, t.args[2])
    return t


def vec_equal(eng, st, a, b):
    if a.elems is not None and b.elems is not None:
        if len(a.elems) != len(b.elems): return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.elems, b.elems)])
    k = fresh('q')
    la, lb = a.tolam(), b.tolam()
    return and_(eq(a.len, b.len), forall_(k, implies(and_(le(I(0), k), lt(k, a.len)), eq(la.get(k), lb.get(k)))))


def base_idx(eng, p):
    return eng.ptr_idx(p)


def target_vec(eng, st, p):
    """(lvalue of the Vec, index) of an iterator/pointer into an array"""
    lv, i = eng.ptr_idx(p)
    v = eng.peek(st, lv)
    if not isinstance(v, Vec):
        return lv, i, None
    return lv, i, v


def slice_(eng, st, pa, pb, et):
    (la, ia), (lb, ib) = eng.ptr_idx(pa), eng.ptr_idx(pb)
    if la[0] != lb[0]: raise Unsupported('iterator pair across containers')
    v = eng.peek(st, la)
    if not isinstance(v, Vec): raise Unsupported('range over %r' % v)
    n = ib - ia
    range_ok(eng, st, v, ia, n)
    if cval(ia) == 0 and v.elems is None and n is v.len: return Vec(et, None, v.len, v.lam)
    if v.elems is not None and cval(ia) is not None and cval(ib) is not None:
        return Vec(et, v.elems[int(cval(ia)):int(cval(ib))])
    l = v.tolam()
    return Vec(et, None, n, Lam.fn(lambda k: l.get(ia + k)))


def range_ok(eng, st, v, i, n):
    """[i, i+n) lies in v"""
    eng.oblige(st, 'range in bounds', and_(le(I(0), i), le(I(0), n), le(i + n, v.len)))


def write_range(eng, st, lv, v, i, n, f):
    """v[i+j] = f(j) for 0 <= j < n"""
    eng.hook(st)
    if v.elems is not None and cval(i) is not None and cval(n) is not None:
        e = list(v.elems)
        for j in range(int(cval(n))):
            e[int(cval(i)) + j] = f(I(j))
        new = Vec(v.et, e)
    elif cval(i) == 0 and n is v.len:
        new = Vec(v.et, None, v.len, Lam.fn(lambda k: f(k)))
    else:
        l = v.tolam()
        if l.nc is not None:
            ks = (fresh('i'), fresh('j'))
            fl = ks[0] * l.nc + ks[1]
            g = and_(le(i, fl), lt(fl, i + n))
            new = Vec(v.et, None, v.len, Lam(ks, vmerge(g, f(fl - i), l.at(ks)), l.nc))
        else:
            k = fresh('k')
            new = Vec(v.et, None, v.len, Lam(k, vmerge(and_(le(i, k), lt(k, i + n)), f(k - i), l.get(k))))
    st.store[lv[0]] = vput(st.store[lv[0]], lv[1], new)


# -------------------------------------------------------------------- std::vector
@meth('vec.size')
def _(eng, st, this, v, a, fr, n): return ('val', v.len)


@meth('vec.empty')
def _(eng, st, this, v, a, fr, n): return ('val', eq(v.len, I(0)))


@meth('vec.begin', 'vec.cbegin', 'vec.data')
def _(eng, st, this, v, a, fr, n): return ('val', Ptr((this[0], this[1] + (('i', I(0)),))))


@meth('vec.end', 'vec.cend')
def _(eng, st, this, v, a, fr, n): return ('val', Ptr((this[0], this[1] + (('i', v.len),))))


@meth('vec.back')
def _(eng, st, this, v, a, fr, n):
    return ('lv', (this[0], this[1] + (('i', v.len - 1),)))


@meth('vec.front')
def _(eng, st, this, v, a, fr, n):
    return ('lv', (this[0], this[1] + (('i', I(0)),)))


@meth('vec.operator[]')
def _(eng, st, this, v, a, fr, n):
    return ('lv', (this[0], this[1] + (('i', eng.rv(st, a[0], fr)),)))


@meth('vec.at')
def _(eng, st, this, v, a, fr, n):
    i = eng.rv(st, a[0], fr)
    ok = and_(le(I(0), i), lt(i, v.len))
    if not eng.known(st, ok):
        t = st.fork(not_(ok))
        eng.throws.append(Throw(t, 'std::out_of_range', 'at'))
        st.assume(ok)
    return ('lv', (this[0], this[1] + (('i', i),)))


@meth('vec.reserve', 'vec.shrink_to_fit')
def _(eng, st, this, v, a, fr, n):
    eng.rv(st, a[0], fr) if a else None
    return ('val', None)


@meth('vec.clear')
def _(eng, st, this, v, a, fr, n):
    eng.put(st, this, Vec(v.et, []))
    return ('val', None)


def push(eng, st, this, x):
    v = eng.peek(st, this)
    eng.hook(st)
    if v.elems is not None and len(v.elems) < 40:
        new = Vec(v.et, v.elems + [x])
    else:
        l = v.tolam()
        if l.nc is not None: l = Lam.fn(lambda k: l0.get(k)) if False else l
        k = fresh('k')
        new = Vec(v.et, None, v.len + 1, Lam(k, vmerge(eq(k, v.len), x, l.get(k))))
    eng.put(st, this, new)


@meth('vec.push_back', 'vec.emplace_back')
def _(eng, st, this, v, a, fr, n):
    x = eng.rv(st, a[0], fr)
    k, t = eng.tclass(v.et)
    if k == 'rec' and a[0].get('valueCategory') == 'lvalue': x = eng.copy_value(st, t, x)
    push(eng, st, this, x)
    if n['inner'][0].get('name') == 'push_back': return ('val', None)
    return ('lv', (this[0], this[1] + (('i', v.len),)))


@meth('vec.pop_back')
def _(eng, st, this, v, a, fr, n):
    eng.oblige(st, 'pop_back on non-empty', lt(I(0), v.len))
    eng.put(st, this, Vec(v.et, v.elems[:-1]) if v.elems else Vec(v.et, None, v.len - 1, v.tolam()))
    return ('val', None)


@meth('vec.resize')
def _(eng, st, this, v, a, fr, n):
    m = eng.rv(st, a[0], fr)
    x = eng.rv(st, a[1], fr) if len(a) > 1 else eng.zero(st, v.et)
    eng.hook(st)
    c = cval(m)
    if v.elems is not None and c is not None and c <= 16:
        e = v.elems[:int(c)] + [x] * max(0, int(c) - len(v.elems))
        eng.put(st, this, Vec(v.et, e))
        return ('val', None)
    eng.oblige(st, 'resize to a valid size', le(I(0), m))
    if eng.known(st, eq(v.len, I(0))):
        eng.put(st, this, Vec(v.et, None, m, Lam.fn(lambda k: x)))
    else:
        l = v.tolam()
        if eng.known(st, eq(v.len, m)): eng.put(st, this, Vec(v.et, None, m, l))
        else:
            old = v.len
            k = fresh('k')
            eng.put(st, this, Vec(v.et, None, m, Lam(k, vmerge(lt(k, old), l.get(k), x))))
    return ('val', None)


@meth('vec.assign')
def _(eng, st, this, v, a, fr, n):
    p, q = eng.rv(st, a[0], fr), eng.rv(st, a[1], fr)
    if isinstance(p, Ptr): eng.put(st, this, slice_(eng, st, p, q, v.et))
    else: eng.put(st, this, Vec(v.et, None, p, Lam.fn(lambda k: q)))
    return ('val', None)


@meth('vec.insert')
def _(eng, st, this, v, a, fr, n):
    if len(a) < 2: raise Unsupported('insert')
    pos = eng.rv(st, a[0], fr)
    (lv, i) = eng.ptr_idx(pos)
    if len(a) == 3:
        src = slice_(eng, st, eng.rv(st, a[1], fr), eng.rv(st, a[2], fr), v.et)
    else: src = Vec(v.et, [eng.rv(st, a[1], fr)])
    eng.hook(st)
    v = eng.peek(st, this)
    if v.elems is not None and src.elems is not None and cval(i) is not None:
        c = int(cval(i))
        eng.put(st, this, Vec(v.et, v.elems[:c] + src.elems + v.elems[c:]))
        return ('val', Ptr((this[0], this[1] + (('i', i),))))
    eng.oblige(st, 'insert position', and_(le(I(0), i), le(i, v.len)))
    l, s = v.tolam(), src.tolam()
    m = src.len
    k = fresh('k')
    if i is v.len or eng.known(st, eq(i, v.len)):
        b = vmerge(lt(k, v.len), l.get(k), s.get(k - v.len))
    else:
        b = vmerge(lt(k, i), l.get(k), vmerge(lt(k, i + m), s.get(k - i), l.get(k - m)))
    eng.put(st, this, Vec(v.et, None, v.len + m, Lam(k, b)))
    return ('val', Ptr((this[0], this[1] + (('i', i),))))


@meth('vec.erase')
def _(eng, st, this, v, a, fr, n): raise Unsupported('vector erase')


@meth('ptr.base', 'ptr.get')
def _(eng, st, this, v, a, fr, n): return ('val', v)


# -------------------------------------------------------------------- std::map
def map_index(eng, st, this, v, key):
    """operator[]: inserts a value-initialised element when absent"""
    h = v.has_at(key)
    if not eng.known(st, h):
        z = eng.zero(st, v.et)
        old = v.at(key)
        nv = vmerge(h, old, z) if not isinstance(z, Opaque) else old
        eng.put(st, this, v.put(key, nv))
    return (this[0], this[1] + (('key', key),))


@meth('map.contains')
def _(eng, st, this, v, a, fr, n): return ('val', v.has_at(eng.rv(st, a[0], fr)))


@meth('map.count')
def _(eng, st, this, v, a, fr, n): return ('val', ite(v.has_at(eng.rv(st, a[0], fr)), I(1), I(0)))


@meth('map.at')
def _(eng, st, this, v, a, fr, n):
    key = eng.rv(st, a[0], fr)
    ok = v.has_at(key)
    if not eng.known(st, ok):
        eng.throws.append(Throw(st.fork(not_(ok)), 'std::out_of_range', 'at'))
        st.assume(ok)
    return ('lv', (this[0], this[1] + (('key', key),)))


@meth('map.find')
def _(eng, st, this, v, a, fr, n):
    key = eng.rv(st, a[0], fr)
    return ('val', MapIt(this, key, v.has_at(key)))


@meth('map.end', 'map.cend')
def _(eng, st, this, v, a, fr, n): return ('val', MapIt(this, None, FALSE))


@meth('map.begin', 'map.cbegin')
def _(eng, st, this, v, a, fr, n):
    k = fresh('key', 'Str')
    r = MapIt(this, k, fresh('more', BOOL))
    r.whole = True
    return ('val', r)


@meth('map.erase')
def _(eng, st, this, v, a, fr, n):
    key = eng.rv(st, a[0], fr)
    if isinstance(key, MapIt): key = key.key
    eng.put(st, this, v.erase(key))
    return ('val', ite(v.has_at(key), I(1), I(0)))


@meth('map.clear')
def _(eng, st, this, v, a, fr, n):
    eng.put(st, this, MapV(v.et, v.k, FALSE, v.val))
    return ('val', None)


class MapIt(Ptr):
    """std::map iterator obtained by find()/end()"""
    def __init__(self, lv, key, valid):
        Ptr.__init__(self, (lv[0], lv[1] + ((('key', key),) if key is not None else ())), not_(valid))
        self.key, self.valid, self.maplv, self.whole = key, valid, lv, False


Ptr.key = None


# -------------------------------------------------------------------- strings
def strlen(v):
    """length of a text; a concatenation is as long as its parts"""
    if v.op == 'strlit': return I(len(v.args[0]))
    if v.op == 'app' and v.args[0] == 'strcat': return strlen(v.args[1]) + strlen(v.args[2])
    return app('str.len', [v], INT)


def len_facts(st, v):
    for x in subterms(v):
        if x.sort == 'Str' and x.op != 'strlit':
            st.assume(le(I(0), strlen(x)))
            if x.op != 'app' or x.args[0] != 'strcat': st.assume(lt(strlen(x), I(2 ** 50)))   # no text fills the address space


@meth('str.size', 'str.length')
def _(eng, st, this, v, a, fr, n):
    len_facts(st, v)
    return ('val', strlen(v))


def strparts(v):
    """the pieces of a concatenation, adjacent literals joined"""
    if v.op == 'app' and v.args[0] == 'strcat':
        out = []
        for p in strparts(v.args[1]) + strparts(v.args[2]):
            if out and out[-1].op == 'strlit' and p.op == 'strlit': out[-1] = strlit(out[-1].args[0] + p.args[0])
            else: out.append(p)
        return out
    return [] if v.op == 'strlit' and v.args[0] == '' else [v]


class StrIt(Opaque):
    """begin() (end False), end() (True), rbegin() ('r'), rend() ('rend') of a text, or the character at offset off ('p')"""
    def __init__(self, lv, end, off=None):
        Opaque.__init__(self, 'iterator into a text')
        self.lv, self.end, self.off = lv, end, off


def str_off(eng, st, it):
    if it.end is False: return I(0)
    if it.end is True:
        v = eng.peek(st, it.lv)
        len_facts(st, v)
        return strlen(v)
    if it.end == 'p': return it.off
    raise Unsupported('reverse iterator into a text')


def str_span(eng, st, p, q):
    """text, first offset and number of characters between two iterators"""
    if p.lv != q.lv: raise Unsupported('iterator pair across texts')
    v = eng.peek(st, p.lv)
    a, b = str_off(eng, st, p), str_off(eng, st, q)
    len_facts(st, v)
    eng.oblige(st, 'range of characters in bounds', and_(le(I(0), a), le(a, b), le(b, strlen(v))))
    return v, a, b - a


@meth('str.begin')
def _(eng, st, this, v, a, fr, n): return ('val', StrIt(this, False))


@meth('str.end')
def _(eng, st, this, v, a, fr, n): return ('val', StrIt(this, True))


@meth('str.rbegin')
def _(eng, st, this, v, a, fr, n): return ('val', StrIt(this, 'r'))


@meth('str.rend')
def _(eng, st, this, v, a, fr, n): return ('val', StrIt(this, 'rend'))


def one_char(eng, st, p):
    """a piece that is a single character: the text of a digit"""
    return p.op == 'app' and (p.args[0] == 'char2str' or p.args[0] == 'to_string.' + str(INT) and eng.known(st, and_(le(I(0), p.args[1]), lt(p.args[1], I(10)))))


def reversed_text(eng, st, v):
    out = []
    for p in reversed(strparts(v)):
        if p.op == 'strlit': out.append(strlit(p.args[0][::-1]))
        elif one_char(eng, st, p): out.append(p)
        else: raise Unsupported('a text of unknown length is reversed')
    return strjoin(out)


def strjoin(ps):
    r = strlit('')
    for p in ps: r = strcat(r, p)
    return r


@meth('str.substr')
def _(eng, st, this, v, a, fr, n):
    pos = eng.rv(st, a[0], fr) if a else I(0)
    if cval(pos) is not None: pos = I(int(cval(pos)) % 2 ** 64)
    ln = strlen(v)
    len_facts(st, v)
    big = lt(ln, pos)
    if not eng.known(st, not_(big)):
        eng.throws.append(Throw(st.fork(big), 'std::out_of_range', 'std::string::substr'))
        if eng.known(st, big): raise Dead()
        st.assume(not_(big))
    cnt = eng.rv(st, a[1], fr) if len(a) > 1 and a[1].get('kind') != 'CXXDefaultArgExpr' else None
    w = wrapped(cnt) if cnt is not None else FALSE
    if w is not FALSE and eng.known(st, w): cnt = None
    if cnt is not None:
        if eng.known(st, le(ln - pos, cnt)): cnt = ln - pos
    else: cnt = ln - pos
    return ('val', substr(eng, st, v, pos, cnt))


def substr(eng, st, v, pos, cnt):
    """the part of a concatenation that begins and ends at the boundary of a piece or inside a literal"""
    ps = strparts(v)
    def cut(at):
        off = I(0)
        for i, p in enumerate(ps):
            d = cval(at - off)
            if d == 0: return (i, 0)
            if d is not None and p.op == 'strlit' and 0 < d < len(p.args[0]): return (i, int(d))
            off = off + strlen(p)
        return (len(ps), 0) if cval(at - off) == 0 else None
    b, e = cut(pos), cut(pos + cnt)
    if b is None or e is None:
        return app('str.substr', [v, pos, cnt], 'Str')
    out = []
    for i in range(b[0], min(e[0] + 1, len(ps))):
        lo, hi = (b[1] if i == b[0] else 0), (e[1] if i == e[0] else None)
        if hi == 0: break
        out.append(ps[i] if lo == 0 and hi is None else strlit(ps[i].args[0][lo:hi]))
    return strjoin(out)


@meth('str.resize')
def _(eng, st, this, v, a, fr, n):
    m = eng.rv(st, a[0], fr)
    len_facts(st, v)
    eng.oblige(st, 'resize to a valid size', le(I(0), m))
    if not eng.known(st, eq(m, strlen(v))):
        r = fresh('str', 'Str')
        st.assume(eq(strlen(r), m))
        eng.put(st, this, r)
    return ('val', None)


@meth('str.clear')
def _(eng, st, this, v, a, fr, n):
    eng.put(st, this, strlit(''))
    return ('val', None)


@meth('str.back')
def _(eng, st, this, v, a, fr, n):
    ps = strparts(v)
    if ps and ps[-1].op == 'strlit': return ('val', I(ord(ps[-1].args[0][-1])))
    return ('val', app('str.at', [v, strlen(v) - 1], INT))


@meth('str.pop_back')
def _(eng, st, this, v, a, fr, n):
    len_facts(st, v)
    eng.oblige(st, 'pop_back of a string that is not empty', lt(I(0), strlen(v)))
    eng.put(st, this, substr(eng, st, v, I(0), strlen(v) - 1))
    return ('val', None)


@meth('str.push_back', 'str.append')
def _(eng, st, this, v, a, fr, n):
    x = eng.rv(st, a[0], fr)
    eng.put(st, this, strcat(v, tostr(x)))
    return ('lv', this)


@meth('str.c_str', 'str.str')
def _(eng, st, this, v, a, fr, n): return ('val', v)


@meth('str.empty')
def _(eng, st, this, v, a, fr, n): return ('val', eq(v, strlit('')))


# -------------------------------------------------------------------- algorithms
def fn_apply(eng, st, fv_, vals, fr):
    """call a function object on values"""
    if isinstance(fv_, engine.Closure):
        k, r = eng.call_closure(st, fv_, [('val', v) for v in vals], fr)
        return eng.load(st, r) if k == 'lv' else r
    if isinstance(fv_, FnRef):
        f = eng.find_func(fv_.d['id'])
        if f is not None:
            k, r = eng.call_func(st, f, None, [('val', v) for v in vals])
            return eng.load(st, r) if k == 'lv' else r
    if isinstance(fv_, Opaque):
        m = {'std::plus': '+', 'std::minus': '-', 'std::multiplies': '*', 'std::divides': '/', 'std::negate': 'neg'}
        for p, op in m.items():
            if fv_.what.startswith(p):
                if op == 'neg': return neg(vals[0])
                return eng.binop(st, op, vals[0], vals[1], 'double')
    raise Unsupported('function object')


def pure_apply(eng, st, fv_, vals, fr):
    """apply a function object that must not have effects; obligations hold under st"""
    s = st.fork()
    r = fn_apply(eng, s, fv_, vals, fr)
    if eng.changed(st, s): raise Unsupported('function object with side effects')
    extra = [c for c in s.pc if c not in st.pc]
    return r, extra


@fun('copy', 'move')
def _(eng, st, a, fr, n):
    if len(a) == 1:      # std::move(x)
        return eng.rv_any(st, a[0], fr) if False else lvresult(eng, st, a[0], fr)
    p, q, o = [eng.rv(st, x, fr) for x in a[:3]]
    o = back_inserter_target(eng, st, o)
    s = slice_(eng, st, p, q, 'double')
    if isinstance(o, tuple):
        lv = o[1]
        v = eng.peek(st, lv)
        append_vec(eng, st, lv, v, s)
        return ('val', Opaque('out'))
    lv, i, v = target_vec(eng, st, o)
    if v is None: raise Unsupported('copy target')
    range_ok(eng, st, v, i, s.len)
    l = s.tolam() if s.elems is not None else s.lam
    write_range(eng, st, lv, v, i, s.len, (lambda j: s.get(j)))
    return ('val', eng.ptr_add(st, o, s.len))


def lvresult(eng, st, a, fr):
    if a.get('valueCategory') in ('lvalue', 'xvalue'): return ('lv', eng.lv(st, a, fr))
    return ('val', eng.rv(st, a, fr))


@fun('forward')
def _(eng, st, a, fr, n): return lvresult(eng, st, a[0], fr)


def back_inserter_target(eng, st, o):
    if isinstance(o, Opaque) and isinstance(o.what, tuple): return o.what
    return o


@fun('back_inserter')
def _(eng, st, a, fr, n):
    return ('val', Opaque(('back', eng.lv(st, a[0], fr))))


def append_vec(eng, st, lv, v, s):
    eng.hook(st)
    if v.elems is not None and s.elems is not None:
        eng.put(st, lv, Vec(v.et, v.elems + s.elems))
        return
    l, m = v.tolam(), s.tolam()
    k = fresh('k')
    eng.put(st, lv, Vec(v.et, None, v.len + s.len, Lam(k, vmerge(lt(k, v.len), l.get(k), m.get(k - v.len)))))


@fun('copy_n')
def _(eng, st, a, fr, n):
    p, m, o = [eng.rv(st, x, fr) for x in a[:3]]
    s = slice_(eng, st, p, eng.ptr_add(st, p, m), 'double')
    lv, i, v = target_vec(eng, st, o)
    range_ok(eng, st, v, i, s.len)
    write_range(eng, st, lv, v, i, s.len, lambda j: s.get(j))
    return ('val', eng.ptr_add(st, o, m))


@fun('fill')
def _(eng, st, a, fr, n):
    p, q, x = [eng.rv(st, y, fr) for y in a[:3]]
    (la, ia), (lb, ib) = eng.ptr_idx(p), eng.ptr_idx(q)
    v = eng.peek(st, la)
    range_ok(eng, st, v, ia, ib - ia)
    write_range(eng, st, la, v, ia, ib - ia, lambda j: x)
    return ('val', None)


@fun('fill_n')
def _(eng, st, a, fr, n):
    p, m, x = [eng.rv(st, y, fr) for y in a[:3]]
    la, ia = eng.ptr_idx(p)
    v = eng.peek(st, la)
    range_ok(eng, st, v, ia, m)
    write_range(eng, st, la, v, ia, m, lambda j: x)
    return ('val', eng.ptr_add(st, p, m))


@fun('iota')
def _(eng, st, a, fr, n):
    p, q, x = [eng.rv(st, y, fr) for y in a[:3]]
    (la, ia), (lb, ib) = eng.ptr_idx(p), eng.ptr_idx(q)
    v = eng.peek(st, la)
    range_ok(eng, st, v, ia, ib - ia)
    write_range(eng, st, la, v, ia, ib - ia, lambda j: x + (j if x.sort == INT else toreal(j)))
    return ('val', None)


@fun('transform')
def _(eng, st, a, fr, n):
    vals = [eng.rv(st, y, fr) for y in a]
    f = vals[-1]
    binary = len(vals) == 5
    o = vals[3] if binary else vals[2]
    out = back_inserter_target(eng, st, o)
    s1 = slice_(eng, st, vals[0], vals[1], 'double')
    if cval(s1.len) is None:
        s2 = slice_(eng, st, vals[2], eng.ptr_add(st, vals[2], s1.len), 'double') if binary else None
        k = fresh('k')
        s = st.fork(and_(le(I(0), k), lt(k, s1.len)))
        try:
            r, extra = pure_apply(eng, s, f, [s1.get(k)] + ([s2.get(k)] if binary else []), fr)
            if any(k in fv(c) for c in extra): raise Unsupported('transform with conditions')
        except Unsupported:
            r = None
        if r is not None:
            if isinstance(out, tuple):
                append_vec(eng, st, out[1], eng.peek(st, out[1]), Vec('double', None, s1.len, Lam(k, r)))
                return ('val', Opaque('out'))
            lv, i, v = target_vec(eng, st, o)
            if v is None: raise Unsupported('transform target')
            range_ok(eng, st, v, i, s1.len)
            write_range(eng, st, lv, v, i, s1.len, lambda j: vsubst(r, {k: j}))
            return ('val', eng.ptr_add(st, o, s1.len))
    sp = span(eng, st, vals[0], vals[1])
    sp2 = span(eng, st, vals[2], eng.ptr_add(st, vals[2], s1.len)) if binary else None
    if isinstance(out, tuple): spo = None
    else: spo = span(eng, st, o, eng.ptr_add(st, o, s1.len))

    def body(s, k):
        x = call_fn(eng, s, f, [('lv', at_(sp, k))] + ([('lv', at_(sp2, k))] if binary else []), fr)
        if spo is None: push(eng, s, out[1], x)
        else: eng.put(s, at_(spo, k), x)
        return s
    alg_loop(eng, st, fr, s1.len, body)
    return ('val', Opaque('out') if spo is None else eng.ptr_add(st, o, s1.len))


# algorithms whose function object has effects, or that stop early, are the loops their standard definition gives
def py_e(f): return {'kind': 'Py', 'fn': f}


def span(eng, st, p, q):
    if not isinstance(p, Ptr) or not isinstance(q, Ptr): raise Unsupported('iterators %r' % p)
    (la, ia), (lb, ib) = eng.ptr_idx(p), eng.ptr_idx(q)
    if la != lb: raise Unsupported('iterator pair across containers')
    v = eng.peek(st, la)
    if not isinstance(v, Vec): raise Unsupported('range over %r' % v)
    range_ok(eng, st, v, ia, ib - ia)
    return la, ia, ib - ia


def at_(sp, k): return (sp[0][0], sp[0][1] + (('i', sp[1] + k),))


def alg_loop(eng, st, fr, n, body):
    """for (k = 0; k < n; k++) body(state, k); the body returns the state or None after a break"""
    ix = eng.alloc(st, I(0))

    def inc(eng_, s, fr_): eng.put(s, ix, eng.peek(s, ix) + I(1))
    r = eng.loop(st, fr, py_e(lambda e, s, f: lt(eng.peek(s, ix), n)), py_e(inc), [py_e(lambda e, s, f: body(s, eng.peek(s, ix)))])
    if r is None: raise Unsupported('algorithm that does not return')
    return eng.peek(st, ix)


def call_fn(eng, s, f, args, fr):
    """args: ('lv', lv) or ('val', v)"""
    if isinstance(f, engine.Closure): k, r = eng.call_closure(s, f, args, fr)
    elif isinstance(f, FnRef) and eng.find_func(f.d['id']) is not None: k, r = eng.call_func(s, eng.find_func(f.d['id']), None, args)
    else: return fn_apply(eng, s, f, [eng.load(s, x) if k == 'lv' else x for k, x in args], fr)
    return eng.load(s, r) if k == 'lv' else r


@fun('for_each', 'for_each_n')
def _(eng, st, a, fr, n):
    p, q, f = [eng.rv(st, y, fr) for y in a]
    if isinstance(q, Term): q = eng.ptr_add(st, p, q)
    sp = span(eng, st, p, q)

    def body(s, k):
        call_fn(eng, s, f, [('lv', at_(sp, k))], fr)
        return s
    alg_loop(eng, st, fr, sp[2], body)
    return ('val', f)


def brk(fr, s):
    fr.loops[-1].breaks.append(s)
    return None


def seek(eng, st, fr, sp, test, stop):
    """flag and index of the first element with test == stop"""
    found, pos = eng.alloc(st, FALSE), eng.alloc(st, sp[2])

    def body(s, k):
        c = eng.tobool(test(s, k))
        if not stop: c = not_(c)

        def hit(x):
            eng.put(x, found, TRUE)
            eng.put(x, pos, k)
            return brk(fr, x)
        return eng.branch(s, c, hit, lambda x: x)
    alg_loop(eng, st, fr, sp[2], body)
    return eng.peek(st, found), eng.peek(st, pos)


def char_test(eng, s, f, c, fr):
    """a predicate applied to a character"""
    if isinstance(f, engine.Closure):
        ft = cast.Func(f.node, 'lambda', None, None)
        t = cast.norm_type(cast.qt(ft.params[0])) if len(ft.params) == 1 else ''
    elif isinstance(f, FnRef): t = 'int'
    else: raise Unsupported('predicate on characters')
    t = t.replace('const ', '').rstrip('& ').strip()
    if t == 'unsigned char':
        # where the conversion makes no difference to the answer it is left out
        x = fresh('c')
        y = s.fork(and_(le(I(-128), x), le(x, I(127))))
        plain = eng.tobool(fn_apply(eng, y, f, [x], fr))
        if eng.known(y, eq(plain, eng.tobool(fn_apply(eng, y, f, [ite(lt(x, I(0)), x + 256, x)], fr)))): return vsubst(plain, {x: c})
        c = ite(lt(c, I(0)), c + 256, c)
    elif t not in ('char', 'int'): raise Unsupported('predicate on %s' % t)
    if isinstance(f, FnRef) and eng.find_func(f.d['id']) is None:
        ch = CTYPE.get(f.d.get('name'))
        if ch is None: raise Unsupported('predicate %s' % f.d.get('name'))
        return ch(c)
    return eng.tobool(fn_apply(eng, s, f, [c], fr))


CTYPE = {}


def pred_alg(name, stop, neg):
    @fun(name)
    def _(eng, st, a, fr, n):
        p, q, f = [eng.rv(st, y, fr) for y in a]
        if isinstance(p, StrIt) and isinstance(q, StrIt):
            v, o, m = str_span(eng, st, p, q)
            if m.op == 'const' and cval(m) <= 8:
                t = [char_test(eng, st, f, engine.CHARAT(eng, st, v, o + j), fr) for j in range(int(cval(m)))]
                return ('val', (or_ if stop else and_)(*t) if not neg else not_(or_(*t)))
            k = fresh('k')
            s = st.fork(and_(le(o, k), lt(k, o + m)))
            c = engine.CHARAT(eng, s, v, k)
            t = char_test(eng, s, f, c, fr)
            if not stop: t = not_(t)
            allnot = forall_(k, implies(and_(le(o, k), lt(k, o + m)), not_(t)))
            return ('val', not_(allnot) if (stop and not neg) else allnot)
        sp = span(eng, st, p, q)
        found, _ = seek(eng, st, fr, sp, lambda s, k: call_fn(eng, s, f, [('lv', at_(sp, k))], fr), stop)
        return ('val', not_(found) if neg else found)


pred_alg('any_of', True, False)
pred_alg('none_of', True, True)
pred_alg('all_of', False, True)


def find_alg(name, stop, value):
    @fun(name)
    def _(eng, st, a, fr, n):
        p, q, f = [eng.rv(st, y, fr) for y in a[:3]]
        if not isinstance(p, Ptr): raise Unsupported('std::%s over %r' % (name, p))
        sp = span(eng, st, p, q)

        def test(s, k):
            if value: return eng.binop(s, '==', eng.load(s, at_(sp, k)), f, 'bool')
            return call_fn(eng, s, f, [('lv', at_(sp, k))], fr)
        _, pos = seek(eng, st, fr, sp, test, stop)
        return ('val', eng.ptr_add(st, p, pos))


find_alg('find_if', True, False)
find_alg('find_if_not', False, False)
find_alg('find', True, True)


def count_alg(name, value):
    @fun(name)
    def _(eng, st, a, fr, n):
        p, q, f = [eng.rv(st, y, fr) for y in a]
        sp = span(eng, st, p, q)
        c = eng.alloc(st, I(0))

        def body(s, k):
            t = eng.tobool(eng.binop(s, '==', eng.load(s, at_(sp, k)), f, 'bool') if value else call_fn(eng, s, f, [('lv', at_(sp, k))], fr))
            eng.put(s, c, eng.peek(s, c) + ite(t, I(1), I(0)))
            return s
        alg_loop(eng, st, fr, sp[2], body)
        return ('val', eng.peek(st, c))


count_alg('count_if', False)
count_alg('count', True)


@fun('generate', 'generate_n')
def _(eng, st, a, fr, n):
    p, q, f = [eng.rv(st, y, fr) for y in a]
    if isinstance(q, Term): q = eng.ptr_add(st, p, q)
    sp = span(eng, st, p, q)

    def body(s, k):
        x = call_fn(eng, s, f, [], fr)
        eng.put(s, at_(sp, k), x)
        return s
    alg_loop(eng, st, fr, sp[2], body)
    return ('val', q)


@fun('accumulate')
def _(eng, st, a, fr, n):
    vals = [eng.rv(st, y, fr) for y in a]
    s = slice_(eng, st, vals[0], vals[1], 'double')
    init = vals[2]
    if len(vals) == 4:
        h, k = fresh('H', init.sort), fresh('k')
        r, extra = pure_apply(eng, st.fork(and_(le(I(0), k), lt(k, s.len))), vals[3], [h, s.get(k)], fr)
        from loops import delta
        e = delta(r, h)
        if e is None: raise Unsupported('accumulate')
        return ('val', init + sum_body(s.len, k, e))
    k = fresh('k')
    e = s.get(k)
    if init.sort == INT and e.sort == REAL: raise Unsupported('accumulate with truncation')
    if init.sort == REAL and e.sort == INT: e = toreal(e)
    return ('val', init + sum_body(s.len, k, e))


@fun('inner_product')
def _(eng, st, a, fr, n):
    vals = [eng.rv(st, y, fr) for y in a]
    if len(vals) != 4: raise Unsupported('inner_product')
    s = slice_(eng, st, vals[0], vals[1], 'double')
    s2 = slice_(eng, st, vals[2], eng.ptr_add(st, vals[2], s.len), 'double')
    k = fresh('k')
    return ('val', vals[3] + sum_body(s.len, k, s.get(k) * s2.get(k)))


@fun('distance')
def _(eng, st, a, fr, n):
    p, q = eng.rv(st, a[0], fr), eng.rv(st, a[1], fr)
    return ('val', eng.ptr_op(st, '-', q, p))


@fun('next')
def _(eng, st, a, fr, n):
    p = eng.rv(st, a[0], fr)
    return ('val', eng.ptr_add(st, p, eng.rv(st, a[1], fr) if len(a) > 1 and a[1].get('kind') != 'CXXDefaultArgExpr' else I(1)))


@fun('begin', 'cbegin')
def _(eng, st, a, fr, n):
    lv = eng.lv(st, a[0], fr)
    return ('val', Ptr((lv[0], lv[1] + (('i', I(0)),))))


@fun('end', 'cend')
def _(eng, st, a, fr, n):
    lv = eng.lv(st, a[0], fr)
    v = eng.peek(st, lv)
    return ('val', Ptr((lv[0], lv[1] + (('i', v.len),))))


@fun('size')
def _(eng, st, a, fr, n): return ('val', eng.rv(st, a[0], fr).len)


@fun('equal')
def _(eng, st, a, fr, n):
    vals = [eng.rv(st, y, fr) for y in a]
    s = slice_(eng, st, vals[0], vals[1], 'double')
    s2 = slice_(eng, st, vals[2], eng.ptr_add(st, vals[2], s.len), 'double')
    return ('val', vec_equal(eng, st, s, s2))


@fun('reverse')
def _(eng, st, a, fr, n):
    p, q = [eng.rv(st, y, fr) for y in a[:2]]
    if isinstance(p, StrIt) and isinstance(q, StrIt):
        if p.lv != q.lv or p.end is not False or q.end is not True: raise Unsupported('part of a text reversed')
        eng.put(st, p.lv, reversed_text(eng, st, eng.peek(st, p.lv)))
        return ('val', None)
    (la, ia), (lb, ib) = eng.ptr_idx(p), eng.ptr_idx(q)
    s = slice_(eng, st, p, q, 'double')
    v = eng.peek(st, la)
    write_range(eng, st, la, v, ia, s.len, lambda j: s.get(s.len - 1 - j))
    return ('val', None)


@fun('swap')
def _(eng, st, a, fr, n):
    x, y = eng.lv(st, a[0], fr), eng.lv(st, a[1], fr)
    u, w = eng.load(st, x), eng.load(st, y)
    eng.put(st, x, w)
    eng.put(st, y, u)
    return ('val', None)


@fun('max')
def _(eng, st, a, fr, n): return minmax(eng, st, a, fr, max_)


@fun('min')
def _(eng, st, a, fr, n): return minmax(eng, st, a, fr, min_)


def minmax(eng, st, a, fr, f):
    vals = [eng.rv(st, y, fr) for y in a]

    def pick(x, y):
        if not isinstance(x, Term) or not isinstance(y, Term): raise Unsupported('min/max of %r' % x)
        if cval(x) is None or cval(y) is None:
            if eng.known(st, le(x, y)): return x if f is min_ else y
            if eng.known(st, le(y, x)): return y if f is min_ else x
        return f(x, y)
    if len(vals) == 1 and isinstance(vals[0], Vec) and vals[0].elems:
        r = vals[0].elems[0]
        for x in vals[0].elems[1:]: r = pick(r, x)
        return ('val', r)
    if len(vals) != 2: raise Unsupported('min/max')
    return ('val', pick(vals[0], vals[1]))


def extreme(eng, st, p, q, big):
    """iterator to the first largest / smallest element: fresh index with its defining facts"""
    s = slice_(eng, st, p, q, 'double')
    if s.elems is not None and 0 < len(s.elems) <= 16 and all(isinstance(x, Term) for x in s.elems):
        b = 0
        for i in range(1, len(s.elems)):
            x, y = s.elems[i], s.elems[b]
            if big: x, y = y, x
            if eng.known(st, lt(x, y)): b = i
            elif not eng.known(st, le(y, x)): b = None; break
        if b is not None: return eng.ptr_add(st, p, I(b))
    w = fresh('ext')
    k = fresh('q')
    ne_ = lt(I(0), s.len)
    rel = (lambda x, y: le(x, y)) if big else (lambda x, y: le(y, x))
    st.assume(implies(ne_, and_(le(I(0), w), lt(w, s.len))))
    st.assume(implies(not_(ne_), eq(w, s.len)))
    if eng.known(st, ne_) or True:
        st.assume(forall_(k, implies(and_(le(I(0), k), lt(k, s.len)), rel(s.get(k), s.get(w)))))
    return eng.ptr_add(st, p, w)


@fun('max_element')
def _(eng, st, a, fr, n):
    return ('val', extreme(eng, st, eng.rv(st, a[0], fr), eng.rv(st, a[1], fr), True))


@fun('min_element')
def _(eng, st, a, fr, n):
    return ('val', extreme(eng, st, eng.rv(st, a[0], fr), eng.rv(st, a[1], fr), False))


# -------------------------------------------------------------------- arithmetic
@fun('abs', 'fabs', 'labs')
def _(eng, st, a, fr, n):
    x = eng.rv(st, a[0], fr)
    return ('val', ite(lt(x, const(0, x.sort)), neg(x), x))


@fun('sqrt', 'exp', 'sin', 'cos', 'tan', 'floor', 'ceil', 'atan2', 'log2', 'log', 'tanh', 'cosh', 'sinh', 'acos', 'asin', 'atan', 'log10', 'round', 'erf')
def _(eng, st, a, fr, n):
    nm = n['inner'][0]
    while nm.get('kind') == 'ImplicitCastExpr': nm = nm['inner'][0]
    f = nm['referencedDecl']['name']
    if f == 'log2':
        # log2(2^k x) = k + log2(x)
        x = eng.rv(st, a[0], fr)
        ms = monos(x)
        if len(ms) == 1:
            (m, c), = ms.items()
            if m and c > 1 and c.denominator == 1 and int(c) & (int(c) - 1) == 0:
                y = from_monos({m: 1}, x.sort)
                if eng.known(st, le(const(1, y.sort), y)):
                    return ('val', app('math.log2', [toreal(y)], REAL) + R(int(c).bit_length() - 1))
        return ('val', app('math.log2', [toreal(x)], REAL) if cval(x) is None or cval(x) <= 0 or int(cval(x)) & (int(cval(x)) - 1) else R(int(cval(x)).bit_length() - 1))
    return ('val', app('math.' + f, [toreal(eng.rv(st, x, fr)) for x in a], REAL))


@fun('pow')
def _(eng, st, a, fr, n):
    x, y = eng.rv(st, a[0], fr), eng.rv(st, a[1], fr)
    cx, cy = cval(x), cval(y)
    if cx is not None and cy is not None and cy.denominator == 1: return ('val', R(cx ** int(cy)))
    if cy is not None and cy.denominator == 1 and 0 <= cy <= 8:
        r = R(1)
        for _ in range(int(cy)): r = r * toreal(x)
        return ('val', r)
    if cx == 2 and y.op == 'toreal': return ('val', toreal(app('pow2', [y.args[0]], INT)))
    return ('val', app('math.pow', [toreal(x), toreal(y)], REAL))


@fun('to_string')
def _(eng, st, a, fr, n):
    x = eng.rv(st, a[0], fr)
    c = cval(x)
    if c is not None and x.sort == INT: return ('val', strlit(str(int(c))))
    return ('val', app('to_string.' + x.sort, [x], 'Str'))


@fun('printf', 'fprintf', 'sprintf', 'fflush', 'puts', 'putchar')
def _(eng, st, a, fr, n):
    for x in a[1:]:
        try: eng.rv_any(st, x, fr)
        except Unsupported: pass
    return ('val', I(0))


@fun('numeric_limits', 'epsilon', 'infinity', 'lowest')
def _(eng, st, a, fr, n): return ('val', fresh('limit', REAL))


@fun('max_')
def _(eng, st, a, fr, n): raise Unsupported('max_')


# -------------------------------------------------------------------- MPI queries
def comm_term(v):
    if isinstance(v, Term): return v
    if isinstance(v, Opaque): return app('comm:%s' % v.what, [], INT)
    return app('comm:ptr', [], INT)


def out_param(eng, st, a, fr, val):
    p = eng.rv(st, a, fr)
    eng.put(st, eng.deref(st, p), val)


@fun('MPI_Comm_rank')
def _(eng, st, a, fr, n):
    c = comm_term(eng.rv(st, a[0], fr))
    r, s = app('mpi.rank', [c], INT), app('mpi.size', [c], INT)
    st.assume(le(I(0), r)); st.assume(lt(r, s))
    out_param(eng, st, a[1], fr, r)
    return ('val', I(0))


@fun('MPI_Comm_size')
def _(eng, st, a, fr, n):
    c = comm_term(eng.rv(st, a[0], fr))
    r, s = app('mpi.rank', [c], INT), app('mpi.size', [c], INT)
    st.assume(le(I(0), r)); st.assume(lt(r, s))
    out_param(eng, st, a[1], fr, s)
    return ('val', I(0))


for _w in ('max', 'min', 'sum', 'prod', 'land', 'band', 'lor', 'bor'): GLOBALS['ompi_mpi_op_' + _w] = (lambda nm: lambda eng, st: Opaque('ompi_mpi_op_' + nm))(_w)
