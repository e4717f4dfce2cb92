"""Contracts of Matrix<double> and its free functions (src/Matrix.hpp)."""
from terms import *
from values import *
from contract import *
from specs.vector import rng, size, concrete, total, perm_of, gather, perm_variants, list_variants, beyond

CONTRACTS = []
MD, VD, VI = 'Matrix<double>', 'Vector<double>', 'Vector<int>'


def C(key, nargs=None, ptypes=None, **kw):
    def d(f):
        CONTRACTS.append(Contract(key, f, nargs, ptypes, **kw))
        return f
    return d


def K(n): return MD + '::' + n


def ent(c, i, j):
    """lvalue of entry (i, j) of *this"""
    lv = c.field('data_')
    return (lv[0], lv[1] + (('i', i * MV(c.this).c + j),))


def inr(t, i, j): return and_(le(I(0), i), lt(i, t.r), le(I(0), j), lt(j, t.c))


def data(r, cc, fn): return Vec('double', None, r * cc, Lam.fn2(fn, cc))


@C(K('Matrix'), 0)
def _(c): c.setthis(Struct(MD, {'nrows_': I(0), 'ncols_': I(0), 'data_': Vec('double', [])}))


@C(K('Matrix'), ptypes=['unsigned long', 'unsigned long'])
def _(c):
    r, n = size(c, c[0]), size(c, c[1])
    c.setthis(mkMatrix(r, n, lambda i, j: R(0)))


@C(K('Matrix'), ptypes=['unsigned long', 'unsigned long', 'double'])
def _(c):
    r, n = size(c, c[0]), size(c, c[1])
    c.setthis(mkMatrix(r, n, lambda i, j: c[2]))


for _pt in ('std::vector<double>', 'std::initializer_list<double>'):
    @C(K('Matrix'), ptypes=['unsigned long', 'unsigned long', _pt])
    def _(c):
        v = c[2]
        c.requires(eq(v.len, c[0] * c[1]))
        l = v.tolam() if v.elems is not None else v.lam
        if l.nc is not None and (l.nc is c[1] or c.known(eq(l.nc, c[1]))): f = lambda i, j: l.get2(i, j)
        else: f = lambda i, j: v.get(i * c[1] + j)
        c.setthis(mkMatrix(c[0], c[1], f))


@C(K('Matrix'), ptypes=[MD + '&'])
def _(c):
    a = c.M(0)
    c.setthis(mkMatrix(a.r, a.c, lambda i, j: a(i, j)))


@C(K('operator='), ptypes=[MD + '&'], aliases=[[('rhs', 'this')]])
def _(c):
    a = c.M(0)
    c.setthis(mkMatrix(a.r, a.c, lambda i, j: a(i, j)))
    c.ret_lv(c.thislv)


@C(K('flattenIndex_'), 2)
def _(c):
    t = MV(c.this)
    c.throws(not_(inr(t, c[0], c[1])))
    c.ret(c[0] * t.c + c[1])


@C(K('getEntry'), 2)
def _(c):
    t = MV(c.this)
    c.throws(not_(inr(t, c[0], c[1])))
    c.ret(t(c[0], c[1]))


@C(K('operator()'), 2, ['unsigned long'] * 2)
def _(c):
    t = MV(c.this)
    c.throws(not_(inr(t, c[0], c[1])))
    c.ret_lv(ent(c, c[0], c[1]))


@C(K('operator()'), 4)
def _(c):
    t, a, b, e, d = MV(c.this), c[0], c[1], c[2], c[3]
    c.requires(and_(le(a, b), le(e, d)))
    c.throws(or_(le(t.r, b), le(t.c, d)))
    c.ret(mkMatrix(b - a + 1, d - e + 1, lambda i, j: t(a + i, e + j)))


@C(K('getRow'), 1)
def _(c):
    t, i = MV(c.this), c[0]
    c.requires(lt(I(0), t.c))
    c.throws(le(t.r, i))
    c.ret(mkVector(t.c, lambda j: t(i, j)))


@C(K('getCol'), 1)
def _(c):
    t, j = MV(c.this), c[0]
    c.requires(lt(I(0), t.r))
    c.throws(le(t.c, j))
    c.ret(mkVector(t.r, lambda i: t(i, j)))


def index_set(c, t, a, b):
    ok = lambda v, n: rng(v.n, lambda k: and_(le(I(0), v(k)), lt(v(k), n)))
    none = or_(eq(a.n, I(0)), eq(b.n, I(0)))
    c.throws(or_(lt(t.r, a.n), lt(t.c, b.n), and_(not_(none), not_(and_(ok(a, t.r), ok(b, t.c))))))
    c.ret(mkMatrix(a.n, b.n, lambda i, j: t(a(i), b(j))))


for _nm in ('getFromIndexSet', 'operator()'):
    @C(K(_nm), ptypes=[VI, VI])
    def _(c): index_set(c, MV(c.this), c.V(0), c.V(1))


@C(K('setRow'), 2)
def _(c):
    t, r, v = MV(c.this), c[0], c.V(1)
    c.throws(or_(le(t.r, r), ne(v.n, t.c)))
    c.set(c.field('data_'), data(t.r, t.c, lambda i, j: ite(eq(i, r), v(j), t(i, j))))


@C(K('setColumn'), 2)
def _(c):
    t, k, v = MV(c.this), c[0], c.V(1)
    c.throws(or_(le(t.c, k), ne(v.n, t.r)))
    c.set(c.field('data_'), data(t.r, t.c, lambda i, j: ite(eq(j, k), v(i), t(i, j))))


@C(K('getBlock'), 4, variants=beyond(0, 1, 2, 3))
def _(c):
    t, a, b, m, n = MV(c.this), c[0], c[1], c[2], c[3]
    c.throws(or_(lt(t.r, a + m), lt(t.c, b + n)))
    c.ret(mkMatrix(m, n, lambda i, j: t(a + i, b + j)))


@C(K('setBlock'), 3, variants=beyond(0, 1))
def _(c):
    t, a, b, m = MV(c.this), c[0], c[1], c.M(2)
    c.throws(or_(lt(t.r, a + m.r), lt(t.c, b + m.c)))
    c.set(c.field('data_'), data(t.r, t.c, lambda i, j: ite(and_(le(a, i), lt(i, a + m.r), le(b, j), lt(j, b + m.c)), m(i - a, j - b), t(i, j))))


@C(K('T'), 0)
def _(c):
    t = MV(c.this)
    c.ret(mkMatrix(t.c, t.r, lambda i, j: t(j, i)))


@C(K('operator-'), 0)
def _(c):
    t = MV(c.this)
    c.ret(mkMatrix(t.r, t.c, lambda i, j: -t(i, j)))


for _op, _f in (('+=', lambda x, y: x + y), ('-=', lambda x, y: x - y)):
    @C(K('operator' + _op), ptypes=[MD + '&'], aliases=[[('rhs', 'this')]])
    def _(c, f=_f):
        t, m = MV(c.this), c.M(0)
        c.throws(or_(ne(m.r, t.r), ne(m.c, t.c)))
        c.set(c.field('data_'), data(t.r, t.c, lambda i, j: f(t(i, j), m(i, j))))
        c.ret_lv(c.thislv)

for _op, _f in (('+=', lambda x, y: x + y), ('-=', lambda x, y: x - y), ('*=', lambda x, y: x * y)):
    @C(K('operator' + _op), ptypes=['double'])
    def _(c, f=_f):
        t = MV(c.this)
        c.set(c.field('data_'), data(t.r, t.c, lambda i, j: f(t(i, j), c[0])))
        c.ret_lv(c.thislv)

for _op, _f in (('+', lambda x, y: x + y), ('-', lambda x, y: x - y)):
    @C('operator' + _op, ptypes=[MD + '&', MD + '&'], aliases=[[('B', 'A')]])
    def _(c, f=_f):
        t, m = c.M(0), c.M(1)
        c.throws(or_(ne(m.r, t.r), ne(m.c, t.c)))
        c.ret(mkMatrix(t.r, t.c, lambda i, j: f(t(i, j), m(i, j))))


@C('operator*', ptypes=['double', MD + '&'])
def _(c):
    m = c.M(1)
    c.ret(mkMatrix(m.r, m.c, lambda i, j: c[0] * m(i, j)))


@C('operator*', ptypes=[MD + '&', VD + '&'])
def _(c):
    a, x = c.M(0), c.V(1)
    c.throws(ne(a.c, x.n))
    c.requires(and_(lt(I(0), a.r), lt(I(0), a.c)))
    c.ret(mkVector(a.r, lambda i: sum_(a.c, lambda k: a(i, k) * x(k))))


@C('operator*', ptypes=[MD + '&', MD + '&'], aliases=[[('B', 'A')]])
def _(c):
    a, b = c.M(0), c.M(1)
    c.throws(ne(a.c, b.r))
    c.requires(and_(lt(I(0), a.r), lt(I(0), a.c), lt(I(0), b.c)))
    c.ret(mkMatrix(a.r, b.c, lambda i, j: sum_(a.c, lambda k: a(i, k) * b(k, j))))


@C('solve', ptypes=[MD + '&', VD + '&'])
def _(c):
    a, b = c.M(0), c.V(1)
    c.throws(or_(ne(a.r, a.c), ne(a.r, b.n)))
    c.requires(lt(I(0), a.r))
    nm = fresh('solution').args[0]
    if c.mode == 'apply': c.ret(mkVector(b.n, lambda i: app(nm, [i], REAL)))
    else: c.ret(Struct(VD, {'size_': b.n, 'data_': ANY}))
    def post(r, peek):
        x = VV(r)
        return and_(eq(x.s.f['data_'].len, b.n), rng(b.n, lambda i: eq(sum_(a.c, lambda k: a(i, k) * x(k)), b(i))))
    c.ensures(post, 'A x = b')


@C('solve', ptypes=[MD + '&', MD + '&'])
def _(c):
    a, b = c.M(0), c.M(1)
    c.throws(or_(ne(a.r, a.c), ne(a.r, b.r)))
    c.requires(and_(lt(I(0), a.r), lt(I(0), b.c)))
    nm = fresh('solution').args[0]
    if c.mode == 'apply': c.ret(mkMatrix(b.r, b.c, lambda i, j: app(nm, [i, j], REAL)))
    else: c.ret(Struct(MD, {'nrows_': b.r, 'ncols_': b.c, 'data_': ANY}))
    def post(r, peek):
        x = MV(r)
        return and_(eq(x.s.f['data_'].len, b.r * b.c),
                    rng(b.r, lambda i: rng(b.c, lambda j: eq(sum_(a.c, lambda k: a(i, k) * x(k, j)), b(i, j)))))
    c.ensures(post, 'A X = B')


@C(K('blockPermute'), 4, variants=perm_variants('double', True), bounded='block permutations: all of at most 3 blocks, some of 4 and 8 blocks; every block size and content')
def _(c):
    t = MV(c.this)
    bi, bj, br, bc = [concrete(c[k]) for k in range(4)]
    p, q = perm_of(c, bi, br, t.r), perm_of(c, bj, bc, t.c)
    c.throws(or_(ne(total(br), t.r), ne(total(bc), t.c)))
    sr, sc = gather(p, br), gather(q, bc)
    c.ret(mkMatrix(t.r, t.c, lambda i, j: t(sr(i), sc(j))))


@C('blockDiagonalMatrix', 1, variants=list_variants(MD, range(0, 6)), bounded='block-diagonal matrices of at most 5 blocks; every shape and content')
def _(c):
    ms = c[0]
    if ms.elems is None: raise Unsupported('block-diagonal matrix of an unknown number of blocks')
    ms = [MV(x) for x in ms.elems]
    nr, nc = total([m.r for m in ms]), total([m.c for m in ms])
    def f(i, j):
        r = R(0)
        ro, co = I(0), I(0)
        for m in ms:
            r = ite(and_(le(ro, i), lt(i, ro + m.r), le(co, j), lt(j, co + m.c)), m(i - ro, j - co), r)
            ro, co = ro + m.r, co + m.c
        return r
    c.ret(mkMatrix(nr, nc, f))
