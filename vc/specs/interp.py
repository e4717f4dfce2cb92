"""Contracts of one-dimensional interpolation (src/Interpolation.cpp)."""
from terms import *
from values import *
from contract import *
import engine
from specs.hps import setf, oblige

CONTRACTS = []
B = 'InterpolantBase'
L = 'LinearInterpolant'
N = var('n')


def C(key, nargs=None, ptypes=None, **kw):
    def d(f):
        CONTRACTS.append(Contract(key, f, nargs, ptypes, **kw))
        return f
    return d


def X(k): return app('xx', [lift(k, INT)], REAL)
def Y(k): return app('yy', [lift(k, INT)], REAL)


def table(eng, st, v):
    """an interpolant over a strictly increasing table of n >= 2 points"""
    v = setf(v, ('n',), N)
    v = setf(v, ('mm',), I(2))
    for f, fn in (('xx', X), ('yy', Y)):
        v = setf(v, (f,), mkVector(N, fn))
    return v


def increasing(st):
    a, b = var('a!q'), var('b!q')
    st.assume(and_(le(I(2), N), lt(N, I(2 ** 30))))
    st.assume(forall_(a, forall_(b, implies(and_(le(I(0), a), lt(a, b), lt(b, N)), lt(X(a), X(b))))))


def inside(j, x):
    """j is the interval of x: the one that contains it, the end ones outside the table"""
    return and_(le(I(0), j), le(j, N - 2), or_(eq(j, I(0)), le(X(j), x)), or_(eq(j, N - 2), lt(x, X(j + 1))))


def interval(x): return app('interval of', [x], INT)


def line(j, x): return Y(j) + (x - X(j)) / (X(j + 1) - X(j)) * (Y(j + 1) - Y(j))


def candidates(eng, base, k):
    q = eng.query
    out = []
    for i in range(k):
        pick = lambda f, i=i: (lambda *v: f(v[i]))
        for c in (I(0), I(1), I(2), N - 1, N - 2, N):
            out.append(pick(lambda v, c=c: le(c, v)))
            out.append(pick(lambda v, c=c: le(v, c)))
        below = lambda v: and_(le(I(0), v), lt(v, N), le(X(v), q))
        above = lambda v: and_(le(I(0), v), lt(v, N), lt(q, X(v)))
        out.append(pick(below))
        out.append(pick(above))
        out.append(pick(lambda v: or_(eq(v, I(0)), below(v))))
        out.append(pick(lambda v: or_(eq(v, N - 1), above(v))))
        out.append(pick(lambda v: or_(le(N - 1, v), above(v))))
        out.append(pick(lambda v: or_(le(v, I(0)), below(v))))
    for i in range(k):
        for j in range(k):
            if i == j: continue
            out.append(lambda *v, i=i, j=j: lt(v[i], v[j]))
            out.append(lambda *v, i=i, j=j: le(v[i], v[j]))
    return out


def setup(eng, st, this, argv):
    st.store[this[0]] = table(eng, st, st.store[this[0]])
    increasing(st)
    eng.loop_candidates = candidates
    eng.loop_bounds = lambda e, s: [N]
    if argv[0][0] == 'val': eng.query = argv[0][1]
    return argv


def search(c):
    x = c.val(0)
    j = interval(x)
    if c.mode == 'apply':
        c.fact(inside(j, x))
        c.ret(j)
        old = c.this
        # the saved position and mode afterwards are some function of the state before
        for f in ('jsav', 'cor'):
            c.set(c.field(f), app(c.f.key + ' leaves ' + f, [x] + [old.f[g] for g in ('jsav', 'cor', 'dj')], INT))
        return
    mono = lambda a, b: implies(and_(le(I(0), a), lt(a, b), lt(b, N)), lt(X(a), X(b)))
    def post(eng, st, pre, tag):
        v = c.result
        goal = inside(v, x)
        facts = [mono(N - 2, N - 1), mono(v, N - 1), mono(v, v + 1), mono(I(0), I(1))]   # instances of the precondition
        for nm, g in (('the position is an interval of the table', and_(le(I(0), v), le(v, N - 2))),
                      ('the point is not left of the interval', or_(eq(v, I(0)), le(X(v), x))),
                      ('the point is not right of the interval', or_(eq(v, N - 2), lt(x, X(v + 1))))):
            oblige(eng, st, nm + tag, g, list(st.pc) + facts)
    c.post_hooks.append(post)
    for f in ('jsav', 'cor'): c.set(c.field(f), ANY)


C(B + '::locate_', 1, variants=[('increasing table', setup)])(search)
C(B + '::hunt_', 1, variants=[('increasing table', setup)])(search)


def unique(eng, st, this, argv):
    """the interval of a point is unique, so that the two searches agree (lemma proved here)"""
    return argv


@C(L + '::rawInterp', 2, variants=[('increasing table', setup)])
def _(c):
    j, x = c.val(0), c.val(1)
    c.requires(and_(le(I(0), j), le(j, N - 2)))
    c.ret(line(j, x))


def dispatch(eng, st, f, this, argv):
    """the only class that implements the pure virtual function"""
    impl = [g for g in eng.prog.by_key.get(L + '::rawInterp', []) if eng.prog.definition(g.id) or g.body is not None]
    subs = sorted({g.key for k in eng.prog.by_key for g in eng.prog.by_key[k] if g.name == 'rawInterp' and g.cls != B})
    if subs != [L + '::rawInterp'] or not impl: raise Unsupported('implementations of rawInterp: %s' % subs)
    d = eng.prog.definition(impl[0].id) or impl[0]
    return eng.apply_contract(st, eng.contracts(d), d, this, argv)


def call_setup(eng, st, this, argv):
    argv = setup(eng, st, this, argv)
    eng.loop_candidates = None
    eng.overrides = {B + '::rawInterp': dispatch}
    return argv


@C(B + '::operator()', 1, ['double'], variants=[('increasing table', call_setup)])
def _(c):
    x = c.val(0)
    c.ret(line(interval(x), x))
    for f in ('jsav', 'cor'): c.set(c.field(f), ANY)

    def post(eng, st, pre, tag):
        oblige(eng, st, 'uniqueness of the interval' + tag, eq(var('j1'), var('j2')),
               [h for h in pre.pc] + [inside(var('j1'), x), inside(var('j2'), x)])
    c.post_hooks.append(post)


@C(B + '::operator()', 1, ['Vector<double>&'], variants=[('increasing table', call_setup)])
def _(c):
    x = c.V(0)
    c.ret(mkVector(x.n, lambda i: line(interval(x(i)), x(i))))
    for f in ('jsav', 'cor'): c.set(c.field(f), ANY)


@C(B + '::InterpolantBase', 3)
def _(c):
    x, y, m = c.V(0), c.V(1), c.val(2)
    c.requires(and_(le(I(2), x.n), eq(y.n, x.n), lt(x.n, I(2 ** 30))))
    def post(eng, st, pre, tag):
        s = eng.peek(st, c.thislv)
        compare(eng, st, x.n, s.f['n'], 'number of points' + tag)
        compare(eng, st, m, s.f['mm'], 'order' + tag)
        for f, i in (('xx', 0), ('yy', 1)):
            v = s.f[f]
            if isinstance(v, Ptr): v = eng.peek(st, v.loc)
            compare(eng, st, c.val(i), v, f + tag)
    c.post_hooks.append(post)
