"""Contracts of Vector<T> (src/Vector.hpp)."""
from terms import *
from values import *
from contract import *
import cast
from externs import wrapped

CONTRACTS = []


def C(key, nargs=None, ptypes=None, **kw):
    def d(f):
        CONTRACTS.append(Contract(key, f, nargs, ptypes, **kw))
        return f
    return d


def beyond(*which):
    """variants of a contract: as usual, and with one of the named arguments a size_t close to its largest value (what a negative number becomes)"""
    def at(w):
        def setup(eng, st, this, argv):
            k = var('back')
            st.assume(and_(le(I(1), k), lt(k, I(2 ** 20))))
            eng.wide = True
            argv[w] = ('val', I(2 ** 64) - k)
            return argv
        return setup
    return [('', lambda eng, st, this, argv: argv)] + [('argument %d is the image of a negative number' % (w + 1), at(w)) for w in which]


def rng(n, f):
    """for all 0 <= k < n: f(k)"""
    k = fresh('q')
    return forall_(k, implies(and_(le(I(0), k), lt(k, n)), f(k)))


def size(c, n):
    """a size_t size: images of negative numbers are refused by std::vector"""
    w = wrapped(n)
    if w is FALSE: return n
    c.throws(w)
    return n.args[1] if n.op == 'ite' else n


def elem_bin(op, a, b):
    return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: rdiv(a, b) if a.sort == REAL else idiv(a, b)}[op]()


def concrete(v):
    """entries of a Vector<int> argument that is known entry by entry"""
    d = v.f['data_']
    if d.elems is None and cval(d.len) is not None and cval(d.len) <= 64: return [d.get(I(i)) for i in range(int(cval(d.len)))]
    if d.elems is None: raise Unsupported('list of unknown length')
    return d.elems


def total(xs):
    r = I(0)
    for x in xs: r = r + x
    return r


def perm_of(c, bi, bs, n):
    """the named permutation (as numbers); the sizes are not negative"""
    p = [cval(x) for x in bi]
    if any(x is None for x in p): raise Unsupported('permutation of unknown blocks')
    p = [int(x) for x in p]
    c.requires(TRUE if sorted(p) == list(range(len(bs))) else FALSE)
    c.requires(and_(*[le(I(0), x) for x in bs]))
    return p


def gather(perm, bs):
    """position the k-th entry of the permuted object is taken from"""
    starts = [total(bs[:i]) for i in range(len(bs))]
    def src(k):
        out, off = None, I(0)
        offs = []
        for b in perm:
            offs.append((off, b))
            off = off + bs[b]
        r = None
        for off, b in reversed(offs):
            v = starts[b] + (k - off)
            r = v if r is None else ite(lt(k, off + bs[b]), v, r)
        return r if r is not None else k
    return src


PERMS = [[0], [1, 0], [0, 1], [0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0], [3, 1, 0, 2], [0, 4, 2, 6, 1, 3, 5, 7]]


def perm_variants(T, mat):
    out = []
    for p in PERMS:
        def setup(eng, st, this, argv, p=p):
            def ivec(vals): return Struct('Vector<int>', {'size_': I(len(vals)), 'data_': Vec('int', list(vals)), 'name_': var('nm', 'Str'), 'vtkComponents_': var('nc', 'Str'), 'vtkType_': var('nt', 'Str')})
            if not mat: vals = [ivec([I(x) for x in p]), ivec([var('s%d' % i) for i in range(len(p))])]
            else:
                q = list(reversed(p)) if len(p) < 4 else p
                vals = [ivec([I(x) for x in p]), ivec([I(x) for x in q]), ivec([var('r%d' % i) for i in range(len(p))]), ivec([var('c%d' % i) for i in range(len(p))])]
            for v in vals:
                for x in v.f['data_'].elems:
                    if x.op == 'var':
                        st.assume(le(I(0), x))
            return [('val', v) for v in vals]
        out.append((','.join(map(str, p)), setup))
    return out


def list_variants(mk, ns):
    out = []
    for n in ns:
        def setup(eng, st, this, argv, n=n):
            facts = []
            et = cast.norm_type(mk)
            vals = Vec(et, [Sym.value(eng, et, 'v%d' % i, facts, (), st) for i in range(n)])
            for f in facts: st.assume(f)
            return [('val', vals)]
        out.append(('%d' % n, setup))
    return out


def for_type(T):
    cls = 'Vector<%s>' % T
    S = sort_of(T)
    zero = const(0, S)

    def K(name): return cls + '::' + name

    @C(K('Vector'), 0)
    def _(c): c.setthis(mkVector(I(0), lambda k: zero, T))

    @C(K('Vector'), ptypes=['unsigned long'])
    def _(c):
        n = size(c, c[0])
        c.setthis(mkVector(n, lambda k: zero, T))

    @C(K('Vector'), ptypes=['unsigned long', T])
    def _(c):
        n = size(c, c[0])
        c.setthis(mkVector(n, lambda k: c[1], T))

    for pt in ('std::initializer_list<%s>' % T, 'std::vector<%s>' % T):
        @C(K('Vector'), ptypes=[pt])
        def _(c):
            v = c[0]
            c.setthis(mkVector(v.len, lambda k: v.get(k), T))

    @C(K('Vector'), ptypes=[cls + '&'])
    def _(c):
        v = c.V(0)
        c.setthis(mkVector(v.n, lambda k: v(k), T))

    @C(K('operator='), 1)
    def _(c):
        v = c.V(0)
        c.setthis(mkVector(v.n, lambda k: v(k), T))
        c.ret_lv(c.thislv)

    @C(K('getEntry'), 1)
    def _(c):
        t = VV(c.this)
        c.throws(le(t.n, c[0]))
        c.ret(t(c[0]))

    for nm in ('operator[]', 'operator()'):
        @C(K(nm), ptypes=['unsigned long'])
        def _(c):
            t = VV(c.this)
            c.throws(le(t.n, c[0]))
            lv = c.field('data_')
            c.ret_lv((lv[0], lv[1] + (('i', c[0]),)))

    for nm in ('getRange', 'operator()'):
        @C(K(nm), ptypes=['unsigned long', 'unsigned long'])
        def _(c):
            t, a, b = VV(c.this), c[0], c[1]
            c.requires(le(a, b))
            c.throws(or_(le(t.n, a), le(t.n, b)))
            c.ret(mkVector(b - a + 1, lambda k: t(a + k), T))

    @C(K('getSegment'), 2, variants=beyond(0, 1))
    def _(c):
        t, a, n = VV(c.this), c[0], c[1]
        c.throws(lt(t.n, a + n))
        c.ret(mkVector(n, lambda k: t(a + k), T))

    @C(K('setSegment'), 2, variants=beyond(0))
    def _(c):
        t, a, v = VV(c.this), c[0], c.V(1)
        c.throws(lt(t.n, a + v.n))
        lv = c.field('data_')
        c.set(lv, mkvec(t.n, lambda k: ite(and_(le(a, k), lt(k, a + v.n)), v(k - a), t(k)), T))

    @C(K('append'), 1)
    def _(c):
        t, v = VV(c.this), c.V(0)
        c.setthis(mkVector(t.n + v.n, lambda k: ite(and_(le(t.n, k), lt(k, t.n + v.n)), v(k - t.n), t(k)), T, name=c.this.f['name_'], comps=c.this.f['vtkComponents_'], typ=c.this.f['vtkType_']))

    for nm in ('getFromIndexSet', 'operator()'):
        @C(K(nm), ptypes=['Vector<int>'])
        def _(c):
            t, ix = VV(c.this), c.V(0)
            c.throws(or_(lt(t.n, ix.n), not_(rng(ix.n, lambda k: and_(le(I(0), ix(k)), lt(ix(k), t.n))))))
            c.ret(mkVector(ix.n, lambda k: t(ix(k)), T))

    @C(K('operator-'), 0)
    def _(c):
        t = VV(c.this)
        c.ret(mkVector(t.n, lambda k: -t(k), T))

    for op in '+-':
        @C(K('operator%s=' % op), ptypes=['Vector<%s>&' % T], aliases=[[('rhs', 'this')]])
        def _(c, op=op):
            t, v = VV(c.this), c.V(0)
            c.throws(ne(t.n, v.n))
            c.set(c.field('data_'), mkvec(t.n, lambda k: elem_bin(op, t(k), v(k)), T))
            c.ret_lv(c.thislv)

        @C(K('operator%s' % op), ptypes=['Vector<%s>&' % T], aliases=[[('rhs', 'this')]])
        def _(c, op=op):
            t, v = VV(c.this), c.V(0)
            c.throws(ne(t.n, v.n))
            c.ret(mkVector(t.n, lambda k: elem_bin(op, t(k), v(k)), T))

        @C(K('operator%s' % op), ptypes=[T])
        def _(c, op=op):
            t = VV(c.this)
            c.ret(mkVector(t.n, lambda k: elem_bin(op, t(k), c[0]), T))

    for op in '+-*/':
        @C(K('operator%s=' % op), ptypes=[T], aliases=[[('rhs', 'this[]')]])
        def _(c, op=op):
            t = VV(c.this)
            if op == '/' : c.requires(ne(c[0], zero))
            c.set(c.field('data_'), mkvec(t.n, lambda k: elem_bin(op, t(k), c[0]), T))
            c.ret_lv(c.thislv)

    @C(K('operator*'), ptypes=['Vector<%s>&' % T], aliases=[[('rhs', 'this')]])
    def _(c):
        t, v = VV(c.this), c.V(0)
        c.throws(ne(t.n, v.n))
        c.ret(sum_(t.n, lambda k: t(k) * v(k), S))

    @C(K('blockPermute'), 2, variants=perm_variants(T, False), bounded='block permutations: all of at most 3 blocks, some of 4, 8 and 12 blocks; every block size and content')
    def _(c):
        t, bi, bs = VV(c.this), concrete(c[0]), concrete(c[1])
        perm = perm_of(c, bi, bs, t.n)
        c.throws(ne(total(bs), t.n))
        src = gather(perm, bs)
        c.ret(mkVector(t.n, lambda k: t(src(k)), T))

    for nm, f in (('getType', 'vtkType_'), ('getName', 'name_'), ('getNumberOfComponents', 'vtkComponents_')):
        @C(K(nm), 0)
        def _(c, f=f): c.ret(c.this.f[f])

    @C(K('setType'), 1)
    def _(c): c.set(c.field('vtkType_'), c[0])

    @C(K('setNumberOfComponents'), 1)
    def _(c): c.set(c.field('vtkComponents_'), c[0])


for_type('double')
for_type('int')

VD = 'Vector<double>'


@C('vectorRange', 2)
def _(c):
    a, b = c[0], c[1]
    c.throws(lt(b - a + 1, I(0)))
    c.ret(mkVector(b - a + 1, lambda k: a + k, 'int'))


@C('operator*', ptypes=['double', VD])
def _(c):
    v = c.V(1)
    c.ret(mkVector(v.n, lambda k: c[0] * v(k)))


for _op in '*/':
    @C('operator' + _op, ptypes=[VD, VD])
    def _(c, op=_op):
        a, b = c.V(0), c.V(1)
        c.throws(ne(a.n, b.n))
        if op == '/': c.requires(rng(a.n, lambda k: ne(b(k), R(0))))
        c.ret(mkVector(a.n, lambda k: elem_bin(op, a(k), b(k))))


@C('vectorL2Norm', 2)
def _(c):
    a, b = c.V(0), c.V(1)
    c.throws(ne(a.n, b.n))
    c.ret(app('math.sqrt', [sum_(a.n, lambda k: (a(k) - b(k)) * (a(k) - b(k)))], REAL))


for _t in ('std::vector<Vector<double>>', 'std::initializer_list<Vector<double>>'):
    @C('concatenate', ptypes=[_t], variants=list_variants(VD, range(0, 7)), bounded='concatenation of at most 6 vectors; every length and content')
    def _(c):
        vs = c[0]
        if vs.elems is None: raise Unsupported('concatenation of an unknown number of vectors')
        vs = [VV(x) for x in vs.elems]
        n = total([v.n for v in vs])
        def f(k):
            r, off = R(0), n
            for v in reversed(vs):
                off = off - v.n
                r = ite(and_(le(off, k)), v(k - off), r) if v is vs[-1] else ite(lt(k, off + v.n), v(k - off), r)
            return r
        c.ret(mkVector(n, f))
