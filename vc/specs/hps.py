"""Contracts of the merge, upwards and split steps (src/HPSAlgorithm.hpp)."""
from terms import *
from values import *
from contract import *
import engine
from specs.vector import rng, size
from specs.special import fine2coarse, coarse2fine
from sums import Split, instantiate

CONTRACTS = []
HPS = 'HPSAlgorithm<FiniteVolumeGrid, FiniteVolumeSolver, FiniteVolumePatch, double>'
PT = ['FiniteVolumePatch&'] * 5


def C(key, nargs=None, ptypes=None, **kw):
    def d(f):
        CONTRACTS.append(Contract(key, f, nargs, ptypes, **kw))
        return f
    return d


def setf(v, path, x):
    """v with the field at path replaced"""
    return vput(v, tuple(('f', p) for p in path), x)


def symM(name, r, c): return mkMatrix(r, c, lambda i, j: app(name, [i, j], REAL))
def symV(name, n): return mkVector(n, lambda i: app(name, [i], REAL))


def patch(v, nx, T=None, h=None, n_coarsens=0):
    v = setf(v, ('n_coarsens',), I(n_coarsens))
    v = setf(v, ('grid_', 'nx_'), nx)
    v = setf(v, ('grid_', 'ny_'), nx)
    if T is not None: v = setf(v, ('T_serial',), T)
    if h is not None: v = setf(v, ('h_serial',), h)
    return v


CORNERS = [var(x, REAL) for x in ('left', 'right', 'low', 'high')]


def tile(v, i):
    """the patch of child i (or the parent) of a family over one rectangle"""
    a, b, c, d = CORNERS
    x, y = (a + b) / R(2), (c + d) / R(2)
    xs = (a, b) if i is None else ((x, b) if i % 2 else (a, x))
    ys = (c, d) if i is None else ((y, d) if i // 2 else (c, y))
    for nm, t in zip(('x_lower_', 'x_upper_', 'y_lower_', 'y_upper_'), xs + ys): v = setf(v, ('grid_', nm), t)
    return v


# sides of a patch: west 0, east 1, south 2, north 3; children alpha 0, beta 1, gamma 2, omega 3
W, E, S, N = range(4)
NAMES = ['alpha', 'beta', 'gamma', 'omega']
# parent boundary blocks in the order west, east, south, north, increasing coordinate: (child, side)
EXT = [(0, W), (2, W), (1, E), (3, E), (0, S), (1, S), (2, N), (3, N)]
# interior edges in the order of the interface data: ((child, side), (child, side))
INT_ = [((0, N), (2, S)), ((1, N), (3, S)), ((0, E), (1, W)), ((2, E), (3, W))]


def where(child, side):
    """('ext', parent block) or ('int', interface block)"""
    for b, x in enumerate(EXT):
        if x == (child, side): return 'ext', b
    for b, xs in enumerate(INT_):
        if (child, side) in xs: return 'int', b


def flux(n, Tc, child, side, i, S_, bc, cc):
    """flux of a child at point i of a side for unit boundary data at point cc of parent block bc"""
    row = side * n + i
    r = const(0, REAL)
    for s in range(4):
        kind, b = where(child, s)
        if kind == 'ext':
            if b == bc: r = r + Tc(row, s * n + cc)
        else:
            r = r + sum_(n, lambda k: Tc(row, s * n + k) * S_(b * n + k, bc * n + cc))
    return r


def pflux(n, Tc, hc, child, side, i, w):
    """particular flux of a child at point i of a side with zero exterior data and interface values w"""
    row = side * n + i
    r = hc(row)
    for s in range(4):
        kind, b = where(child, s)
        if kind == 'int': r = r + sum_(n, lambda k: Tc(row, s * n + k) * w(b * n + k))
    return r


def instances(st, sp, row, entry, extra):
    """facts about solutions of linear systems at one row, for the columns occurring in entry"""
    cols = []
    for x in subterms(entry):
        if x.op == 'app' and len(x.args) == 3 and x.args[2] not in cols: cols.append(x.args[2])
    out = []
    for h in st.pc:
        if h.op != 'forall': continue
        h1 = instantiate(h, [row])
        if h1 is None: continue
        two = [x for x in ([h1] + list(h1.args) if h1.op == 'or' else [h1]) if isinstance(x, Term) and x.op == 'forall']
        for g in ([instantiate(h1, [c]) for c in cols] if two else [h1]):
            if g is not None: out.append(sp.simp(g, extra))
    return out


def oblige(eng, st, name, goal, hyps):
    s = st.fork()
    s.pc = hyps
    eng.oblige(s, name, goal)


def merge_post(c, Tch, h=None, upward=False):
    """flux continuity and the parent's map"""
    tau = c.lvarg(0)
    def post(eng, st, pre, tag):
        n = var('n')
        base = [le(I(1), n), lt(n, I(2 ** 20))]
        fld = lambda f: eng.peek(st, (tau[0], tau[1] + (('f', f),)))
        S_, T_ = MV(fld('S_serial')), MV(fld('T_serial'))
        eng.oblige(st.fork(), 'interface operator has 4n rows and 8n columns' + tag, and_(eq(S_.r, 4 * n), eq(S_.c, 8 * n)))
        eng.oblige(st.fork(), 'parent map has 8n rows and 8n columns' + tag, and_(eq(T_.r, 8 * n), eq(T_.c, 8 * n)))
        i, cc, k = var('i0'), var('c0'), var('k0')
        rng_ = [le(I(0), i), lt(i, n), le(I(0), cc), lt(cc, n)]
        sp = Split(n, base + rng_)
        kr = (le(I(0), k), lt(k, n))
        for bc in range(8):
            entry = {b: sp.simp(S_(b * n + k, bc * n + cc), kr) for b in range(4)}
            Ss = lambda r, c_: None
            def S1(r, c_):
                b = int(cval(split_by(r, n)[0]))
                return subst(entry[b], {k: split_by(r, n)[1]})
            for ib, ((p, s), (q, t)) in enumerate(INT_):
                goal = eq(sp.simp(flux(n, Tch[p], p, s, i, S1, bc, cc)), sp.simp(flux(n, Tch[q], q, t, i, S1, bc, cc)))
                ins = instances(st, sp, ib * n + i, entry[ib], ())
                oblige(eng, st, 'fluxes of %s and %s agree at their common edge for data on parent side block %d' % (NAMES[p], NAMES[q], bc) + tag, goal, base + rng_ + ins)
            for rb, (p, s) in enumerate(EXT):
                goal = eq(sp.simp(T_(rb * n + i, bc * n + cc)), sp.simp(flux(n, Tch[p], p, s, i, S1, bc, cc)))
                oblige(eng, st, 'parent flux on side block %d for data on block %d is the flux of %s' % (rb, bc, NAMES[p]) + tag, goal, base + rng_)
    c.post_hooks.append(post)


def level(x, n):
    """k with x = 2^k n"""
    q, r = split_by(x, n)
    v = cval(q) if q is not None and r is not None and cval(r) == 0 else None
    if v is None or v < 1 or int(v) & (int(v) - 1): raise Unsupported('side length %s' % show(x))
    return int(v).bit_length() - 1


def patch_levels(c, n):
    """(k, coarsened) of the four children: nx = 2^k n"""
    out = []
    for i in range(1, 5):
        p = c.val(i)
        out.append((level(p.f['grid_'].f['nx_'], n), int(cval(p.f['n_coarsens']))))
    return out


def blockdiag4(nr, nc, f):
    """entry of the block diagonal matrix of four equal blocks"""
    def g(i, j):
        r = R(0)
        for b in range(4):
            r = ite(and_(le(b * nr, i), lt(i, (b + 1) * nr), le(b * nc, j), lt(j, (b + 1) * nc)), f(i - b * nr, j - b * nc), r)
        return r
    return g


def L21(m): return blockdiag4(m, 2 * m, fine2coarse)
def L12(m): return blockdiag4(2 * m, m, coarse2fine(m))


def product(a, b, len_): return lambda i, j: sum_(len_, lambda k: a(i, k) * b(k, j))
def apply_(a, v, len_): return lambda i: sum_(len_, lambda k: a(i, k) * v(k))


def levels_setup(ks, T=True, h=False, g=False, coarsened=None):
    def setup(eng, st, this, argv):
        n = var('n')
        del st.pc[:]
        st.assume(and_(le(I(1), n), lt(n, I(2 ** 20))))
        for i, (nm, k) in enumerate(zip(NAMES, ks), 1):
            lv = argv[i][1]
            m = 2 ** k * n
            cs = coarsened[i - 1] if coarsened else 0
            mt = m if not cs else n * 2 ** (k - cs)
            st.store[lv[0]] = tile(patch(st.store[lv[0]], m, symM('T_' + nm, 4 * mt, 4 * mt) if T else None, symV('h_' + nm, 4 * m) if h else None, cs), i - 1)
        lv = argv[0][1]
        st.store[lv[0]] = tile(st.store[lv[0]], None)
        return argv
    return (','.join('2^%d n' % k for k in ks), setup)


COMBOS = [(0, 0, 0, 0), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (1, 1, 0, 1), (0, 2, 1, 0), (1, 1, 1, 1), (0, 0, 3, 1)]


@C(HPS + '::coarsen_', 5, variants=[levels_setup(ks) for ks in COMBOS], bounded='coarsening: every side length and content, selected combinations of levels differing by at most 3')
def _(c):
    n = var('n')
    lv = patch_levels(c, n)
    low = min(k - d for k, d in lv)
    for i, (k, d) in enumerate(lv):
        t = k - d - low
        if t == 0: continue
        p = c.val(i + 1)
        T_ = MV(p.f['T_serial'])
        c.requires(and_(eq(T_.r, 4 * 2 ** (k - d) * n), eq(T_.c, 4 * 2 ** (k - d) * n)))
        a = c.lvarg(i + 1)
        c.set((a[0], a[1] + (('f', 'n_coarsens'),)), I(d + t))
        if c.mode == 'apply':
            m = 2 ** low * n
            c.set((a[0], a[1] + (('f', 'T_serial'),)), symM('Tc_' + NAMES[i], 4 * m, 4 * m))
            continue
        f = T_
        for q_ in range(t):
            m = 2 ** (k - d - q_ - 1) * n
            f = product(product(L21(m), f, 8 * m), L12(m), 8 * m)
        m = 2 ** low * n
        c.set((a[0], a[1] + (('f', 'T_serial'),)), mkMatrix(4 * m, 4 * m, f))


def merge_contract(c):
    c.set(c.thislv, ANY)
    tau = c.lvarg(0)
    n = var('n')
    c.set(tau, ANY)
    lv = patch_levels(c, n)
    low = min(k for k, d in lv)
    for i, (k, d) in enumerate(lv):
        if k > low:
            a = c.lvarg(i + 1)
            c.set((a[0], a[1] + (('f', 'n_coarsens'),)), I(k - low))
            c.set((a[0], a[1] + (('f', 'T_serial'),)), symM('Tc_' + NAMES[i], 4 * n, 4 * n))
    Tch = [MV(symM(('Tc_' if k > low else 'T_') + x, 4 * n, 4 * n)) for x, (k, d) in zip(NAMES, lv)]
    merge_post(c, Tch)

    def size(eng, st, pre, tag):
        g = eng.peek(st, (tau[0], tau[1] + (('f', 'grid_'),))).f
        eng.oblige(st.fork(), 'the merged patch has as many cells per side as two of its children side by side' + tag,
                   and_(eq(g['nx_'], 2 * n), eq(g['ny_'], 2 * n), eq(eng.peek(st, (tau[0], tau[1] + (('f', 'n_coarsens'),))), I(0))))
        eng.oblige(st.fork(), 'the merged patch covers its children' + tag, and_(*[eq(g[k], x) for k, x in zip(('x_lower_', 'x_upper_', 'y_lower_', 'y_upper_'), CORNERS)]))
    c.post_hooks.append(size)


@C(HPS + '::merge4to1', 5, variants=[levels_setup((0, 0, 0, 0)), levels_setup((1, 0, 2, 0))])
def _(c): merge_contract(c)


# ------------------------------------------------------------------ upwards
HOM = var('option homogeneous-rhs', BOOL)


@C(HPS + '::coarsenUpwards_', 5, variants=[levels_setup(tuple(k), h=True, coarsened=k) for k in COMBOS[:-2] + [(0, 0, 3, 1)]],
   bounded='coarsening: every side length and content, selected combinations of levels differing by at most 3')
def _(c):
    n = var('n')
    lv = patch_levels(c, n)
    for i, (k, d) in enumerate(lv):
        if d == 0: continue
        h = c.val(i + 1).f['h_serial']
        c.requires(eq(h.f['size_'], 4 * 2 ** k * n))
        a = c.lvarg(i + 1)
        a = (a[0], a[1] + (('f', 'h_serial'),))
        if c.mode == 'apply':
            c.set(a, symV('hc_' + NAMES[i], 4 * 2 ** (k - d) * n))
            continue
        f = VV(h)
        for q_ in range(d):
            m = 2 ** (k - q_ - 1) * n
            f = apply_(L21(m), f, 8 * m)
        c.set(a, mkVector(4 * 2 ** (k - d) * n, f))


def method(eng, key, nargs):
    for f in eng.prog.by_key.get(key, []):
        d = eng.prog.definition(f.id) or f
        if d.body is not None and len(d.params) == nargs: return d
    raise Unsupported('no function ' + key)


def upwards_setup(ks, hom):
    def setup(eng, st, this, argv):
        argv = levels_setup(ks)[1](eng, st, this, argv)
        if not hom:
            # the parent as the build stage leaves it
            eng.call_body(st, method(eng, HPS + '::merge4to1', 5), this, argv)
        n = var('n')
        for i, (nm, k) in enumerate(zip(NAMES, ks), 1):
            lv = argv[i][1]
            st.store[lv[0]] = setf(st.store[lv[0]], ('h_serial',), symV('h_' + nm, 4 * 2 ** k * n))
        lv = argv[0][1]
        for f in ('h_serial', 'w_serial'):
            st.store[lv[0]] = setf(st.store[lv[0]], (f,), Sym.value(eng, 'Vector<double>', 'old_' + f, None, (), st))
        st.assume(HOM if hom else not_(HOM))
        return argv
    lab = levels_setup(ks)[0]
    return ((lab + ' homogeneous') if hom else lab, setup)


@C(HPS + '::upwards4to1', 5, variants=[upwards_setup((0, 0, 0, 0), False), upwards_setup((1, 0, 2, 0), False), upwards_setup((0, 0, 0, 0), True)])
def _(c):
    c.set(c.thislv, ANY)
    if c.known(HOM): return
    n = var('n')
    tau = c.lvarg(0)
    for f in ('X_serial', 'h_serial', 'w_serial'): c.set((tau[0], tau[1] + (('f', f),)), ANY)
    lv = patch_levels(c, n)
    for i, (k, d) in enumerate(lv):
        if d:
            a = c.lvarg(i + 1)
            c.set((a[0], a[1] + (('f', 'h_serial'),)), symV('hc_' + NAMES[i], 4 * n))
    Tch = [MV(c.val(i).f['T_serial']) for i in range(1, 5)]
    hch = [VV(symV(('hc_' if d else 'h_') + nm, 4 * n)) for nm, (k, d) in zip(NAMES, lv)]

    def post(eng, st, pre, tag):
        base = [le(I(1), n), lt(n, I(2 ** 20))]
        fld = lambda f: eng.peek(st, (tau[0], tau[1] + (('f', f),)))
        w, h = VV(fld('w_serial')), VV(fld('h_serial'))
        eng.oblige(st.fork(), 'interface correction has 4n entries' + tag, eq(w.n, 4 * n))
        eng.oblige(st.fork(), 'parent particular flux has 8n entries' + tag, eq(h.n, 8 * n))
        i, k = var('i0'), var('k0')
        rng_ = [le(I(0), i), lt(i, n)]
        sp = Split(n, base + rng_)
        entry = {b: sp.simp(w(b * n + k), (le(I(0), k), lt(k, n))) for b in range(4)}
        def w1(r):
            b, x = split_by(r, n)
            return subst(entry[int(cval(b))], {k: x})
        for ib, ((p, s), (q, t)) in enumerate(INT_):
            goal = eq(sp.simp(pflux(n, Tch[p], hch[p], p, s, i, w1)), sp.simp(pflux(n, Tch[q], hch[q], q, t, i, w1)))
            oblige(eng, st, 'particular fluxes of %s and %s agree at their common edge' % (NAMES[p], NAMES[q]) + tag, goal, base + rng_ + instances(st, sp, ib * n + i, entry[ib], ()))
        for rb, (p, s) in enumerate(EXT):
            goal = eq(sp.simp(h(rb * n + i)), sp.simp(pflux(n, Tch[p], hch[p], p, s, i, w1)))
            oblige(eng, st, 'parent particular flux on side block %d is the flux of %s' % (rb, NAMES[p]) + tag, goal, base + rng_)
    c.post_hooks.append(post)


# ------------------------------------------------------------------ split
def split_setup(c_, ks, hom):
    """parent of four children of side n, coarsened c_ times in the build stage"""
    def setup(eng, st, this, argv):
        m = var('n')
        n = 2 ** c_ * m
        del st.pc[:]
        st.assume(and_(le(I(1), m), lt(m, I(2 ** 20))))
        st.assume(HOM if hom else not_(HOM))
        lv = argv[0][1]
        t = patch(st.store[lv[0]], 2 * n, n_coarsens=c_)
        t = setf(t, ('g_serial',), symV('g', 8 * m))
        t = setf(t, ('S_serial',), symM('S', 4 * n, 8 * n))
        t = setf(t, ('w_serial',), symV('w', 4 * n))
        st.store[lv[0]] = t
        for i, (nm, k) in enumerate(zip(NAMES, ks), 1):
            lv = argv[i][1]
            st.store[lv[0]] = patch(st.store[lv[0]], 2 ** k * n, n_coarsens=k)
        return argv
    return ('parent coarsened %d times, children %s%s' % (c_, ','.join(map(str, ks)), ', homogeneous' if hom else ''), setup)


def uncoarsened(f, c_, n):
    """parent data refined c_ times to 8n entries"""
    for q_ in range(c_):
        m = 2 * n if c_ == 0 else None
        half = idiv(2 * n, I(2 ** (c_ - q_)))
        f = apply_(L12(half), f, 4 * half)
    return f


@C(HPS + '::uncoarsen_', 5, variants=[split_setup(c_, (0, 0, 0, 0), False) for c_ in range(4)], bounded='refinement of split data: every side length and content, at most 3 levels')
def _(c):
    t = c.val(0)
    c_ = int(cval(t.f['n_coarsens']))
    if c_ == 0: return
    n = idiv(t.f['grid_'].f['nx_'], I(2))
    g = c.lvarg(0)
    g = (g[0], g[1] + (('f', 'g_serial'),))
    if c.mode == 'apply':
        c.set(g, symV('gu', 8 * n))
        return
    c.set(g, mkVector(8 * n, uncoarsened(VV(t.f['g_serial']), c_, n)))


@C(HPS + '::split1to4', 5, variants=[split_setup(0, (0, 0, 0, 0), False), split_setup(0, (0, 0, 0, 0), True), split_setup(2, (1, 0, 0, 2), False), split_setup(1, (0, 0, 1, 0), True)])
def _(c):
    t = c.val(0)
    n = idiv(t.f['grid_'].f['nx_'], I(2))
    c_ = int(cval(t.f['n_coarsens']))
    g = VV(symV('gu', 8 * n)) if c_ else VV(t.f['g_serial'])
    S_, w = MV(t.f['S_serial']), VV(t.f['w_serial'])
    tau = c.lvarg(0)
    if c_: c.set((tau[0], tau[1] + (('f', 'g_serial'),)), symV('gu', 8 * n))
    hom = c.known(HOM)
    def ui(i):
        r = sum_(8 * n, lambda k: S_(i, k) * g(k))
        return r if hom else r + w(i)
    for p in range(4):
        parts = []
        for s in range(4):
            kind, b = where(p, s)
            parts.append((g if kind == 'ext' else ui, b))
        def data(i, parts=parts):
            r = R(0)
            for s in reversed(range(4)):
                f, b = parts[s]
                r = ite(and_(le(s * n, i), lt(i, (s + 1) * n)), f(i - s * n + b * n), r)
            return r
        a = c.lvarg(p + 1)
        c.set((a[0], a[1] + (('f', 'g_serial'),)), mkVector(4 * n, data))


# ------------------------------------------------------------------ leaf solve
def leaf_setup(hom):
    def setup(eng, st, this, argv):
        st.assume(HOM if hom else not_(HOM))
        return argv
    return ('homogeneous' if hom else 'inhomogeneous', setup)
