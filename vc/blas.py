"""Models of the BLAS/LAPACK routines (column-major, as documented by netlib)."""
from terms import *
from values import *
import values as V
from externs import fun, note, range_ok
import engine


def cell(eng, st, a, fr):
    """scalar passed by address"""
    p = eng.rv(st, a, fr)
    return eng.load(st, eng.deref(st, p))


def flag(eng, st, a, fr):
    c = cval(cell(eng, st, a, fr))
    if c is None or chr(int(c)) not in 'NTCntc': raise Unsupported('transpose flag')
    return chr(int(c)) in 'TCtc'


def arr(eng, st, p):
    lv, i = eng.ptr_idx(p)
    v = eng.peek(st, lv)
    if not isinstance(v, Vec): raise Unsupported('array argument')
    return lv, i, v


def rd(v, base, idx):
    if v.elems is not None: v = v.generic()
    return v.get(base + idx)


def ge_len(eng, st, v, base, need, what):
    eng.oblige(st, 'BLAS: %s holds enough entries' % what, le(base + need, v.len))


def colmajor(eng, st, lv, v, base, m, n, ld, f):
    """v[base + i + j*ld] = f(i, j) for i<m, j<n (m == ld: contiguous)"""
    if cval(base) != 0: raise Unsupported('sub-array output')
    if not eng.known(st, eq(m, ld)): raise Unsupported('leading dimension larger than rows')
    if not eng.known(st, eq(v.len, n * ld)): raise Unsupported('output larger than the matrix')
    j, i = fresh('j'), fresh('i')
    old = v.tolam() if v.elems is not None else v.lam
    nc = old.nc if old.nc is not None and eng.known(st, eq(old.nc, ld)) else ld
    new = Vec(v.et, None, v.len, Lam((j, i), f(i, j), nc))
    st.store[lv[0]] = vput(st.store[lv[0]], lv[1], new)


@fun('dgemv_')
def _(eng, st, a, fr, n):
    note(eng, 'dgemv_ (BLAS)')
    tr = flag(eng, st, a[0], fr)
    M, N, al = [cell(eng, st, x, fr) for x in a[1:4]]
    pa, lda = eng.rv(st, a[4], fr), cell(eng, st, a[5], fr)
    px, ix = eng.rv(st, a[6], fr), cell(eng, st, a[7], fr)
    be, py, iy = cell(eng, st, a[8], fr), eng.rv(st, a[9], fr), cell(eng, st, a[10], fr)
    if cval(ix) != 1 or cval(iy) != 1: raise Unsupported('increments')
    la, ba, A = arr(eng, st, pa)
    lx, bx, X = arr(eng, st, px)
    ly, by, Y = arr(eng, st, py)
    ny, nx = (N, M) if tr else (M, N)
    eng.oblige(st, 'BLAS: dgemv dimensions', and_(le(I(0), M), le(I(0), N), le(M, lda), le(I(1), lda)))
    ge_len(eng, st, A, ba, lda * N, 'A')
    ge_len(eng, st, X, bx, nx, 'x')
    ge_len(eng, st, Y, by, ny, 'y')
    if ly[0] in (la[0], lx[0]): raise Unsupported('aliased BLAS arguments')
    V._Hook.pc = st.pc
    def val(j):
        k, l = (fresh('sk')), None
        s2 = st.fork(and_(le(I(0), j), lt(j, ny), le(I(0), k), lt(k, nx)))
        V._Hook.pc = s2.pc
        e = rd(A, ba, k + j * lda) if tr else rd(A, ba, j + k * lda)
        e = e * rd(X, bx, k)
        V._Hook.pc = st.pc
        r = al * sum_body(nx, k, e)
        if cval(be) != 0: r = r + be * rd(Y, by, j)
        return r
    j = fresh('j')
    from externs import write_range
    write_range(eng, st, ly, Y, by, ny, val) if cval(by) == 0 and eng.known(st, eq(Y.len, ny)) is False else \
        st.store.__setitem__(ly[0], vput(st.store[ly[0]], ly[1], Vec(Y.et, None, Y.len, Lam(j, val(j)))))
    return ('val', None)


@fun('dgemm_')
def _(eng, st, a, fr, n):
    note(eng, 'dgemm_ (BLAS)')
    ta, tb = flag(eng, st, a[0], fr), flag(eng, st, a[1], fr)
    M, N, K, al = [cell(eng, st, x, fr) for x in a[2:6]]
    pa, lda = eng.rv(st, a[6], fr), cell(eng, st, a[7], fr)
    pb, ldb = eng.rv(st, a[8], fr), cell(eng, st, a[9], fr)
    be, pc, ldc = cell(eng, st, a[10], fr), eng.rv(st, a[11], fr), cell(eng, st, a[12], fr)
    la, ba, A = arr(eng, st, pa)
    lb, bb, B = arr(eng, st, pb)
    lc, bc, Cm = arr(eng, st, pc)
    ra, ca = (K, M) if ta else (M, K)
    rb, cb = (N, K) if tb else (K, N)
    eng.oblige(st, 'BLAS: dgemm dimensions', and_(le(I(0), M), le(I(0), N), le(I(0), K), le(ra, lda), le(I(1), lda),
                                                  le(rb, ldb), le(I(1), ldb), le(M, ldc), le(I(1), ldc)))
    ge_len(eng, st, A, ba, lda * ca, 'A')
    ge_len(eng, st, B, bb, ldb * cb, 'B')
    ge_len(eng, st, Cm, bc, ldc * N, 'C')
    if lc[0] in (la[0], lb[0]): raise Unsupported('aliased BLAS arguments')
    def val(i, j):
        l = fresh('sk')
        s2 = st.fork(and_(le(I(0), i), lt(i, M), le(I(0), j), lt(j, N), le(I(0), l), lt(l, K)))
        V._Hook.pc = s2.pc
        x = rd(A, ba, l + i * lda) if ta else rd(A, ba, i + l * lda)
        y = rd(B, bb, j + l * ldb) if tb else rd(B, bb, l + j * ldb)
        V._Hook.pc = st.pc
        r = al * sum_body(K, l, x * y)
        if cval(be) != 0: r = r + be * rd(Cm, bc, i + j * ldc)
        return r
    colmajor(eng, st, lc, Cm, bc, M, N, ldc, val)
    return ('val', None)


@fun('dgesv_')
def _(eng, st, a, fr, n):
    note(eng, 'dgesv_ (LAPACK): on a nonsingular system returns INFO = 0 and the solution (rounding ignored)')
    N, R_ = cell(eng, st, a[0], fr), cell(eng, st, a[1], fr)
    pa, lda = eng.rv(st, a[2], fr), cell(eng, st, a[3], fr)
    pp = eng.rv(st, a[4], fr)
    pb, ldb = eng.rv(st, a[5], fr), cell(eng, st, a[6], fr)
    la, ba, A = arr(eng, st, pa)
    lp, bp, P = arr(eng, st, pp)
    lb, bb, B = arr(eng, st, pb)
    eng.oblige(st, 'LAPACK: dgesv dimensions', and_(le(I(0), N), le(I(0), R_), le(N, lda), le(I(1), lda), le(N, ldb), le(I(1), ldb)))
    ge_len(eng, st, A, ba, lda * N, 'A')
    ge_len(eng, st, P, bp, N, 'ipiv')
    ge_len(eng, st, B, bb, ldb * R_, 'B')
    if lb[0] == la[0]: raise Unsupported('aliased LAPACK arguments')
    nm = fresh('dgesv').args[0]
    i, j, k = fresh('q'), fresh('q'), fresh('sk')
    x = lambda r, c: app(nm, [r, c], REAL)
    s2 = st.fork(and_(le(I(0), i), lt(i, N), le(I(0), j), lt(j, R_), le(I(0), k), lt(k, N)))
    V._Hook.pc = s2.pc
    lhs = sum_body(N, k, rd(A, ba, i + k * lda) * x(k, j))
    rhs = rd(B, bb, i + j * ldb)
    V._Hook.pc = st.pc
    st.assume(forall_(i, forall_(j, implies(and_(le(I(0), i), lt(i, N), le(I(0), j), lt(j, R_)), eq(lhs, rhs)))))
    if cval(R_) == 1:
        if cval(bb) != 0 or not eng.known(st, eq(B.len, N)): raise Unsupported('sub-array right-hand side')
        kk = fresh('k')
        new = Vec(B.et, None, B.len, Lam(kk, x(kk, I(0))))
        st.store[lb[0]] = vput(st.store[lb[0]], lb[1], new)
    else: colmajor(eng, st, lb, B, bb, N, R_, ldb, lambda r, c: x(r, c))
    # factors and pivots: unspecified
    for lv, v in ((la, A), (lp, P)):
        kk = fresh('k')
        new = Vec(v.et, None, v.len, Lam(kk, app(fresh('lu').args[0], [kk], REAL if v.et == 'double' else INT)))
        st.store[lv[0]] = vput(st.store[lv[0]], lv[1], new)
    p = eng.rv(st, a[7], fr)
    eng.put(st, eng.deref(st, p), I(0))
    return ('val', None)


@fun('hstcrt_')
def _(eng, st, a, fr, n):
    note(eng, 'hstcrt_ (FISHPACK90): returns the solution of the five-point Helmholtz discretisation on a staggered grid with the boundary values given half a cell outside (documented contract, Dirichlet sides only; nonsingular)')
    A, B, M, mb = [cell(eng, st, x, fr) for x in a[0:4]]
    pa, pb = eng.rv(st, a[4], fr), eng.rv(st, a[5], fr)
    C, D, N, nb = [cell(eng, st, x, fr) for x in a[6:10]]
    pc, pd = eng.rv(st, a[10], fr), eng.rv(st, a[11], fr)
    lam, pf, idim = cell(eng, st, a[12], fr), eng.rv(st, a[13], fr), cell(eng, st, a[14], fr)
    if cval(mb) != 1 or cval(nb) != 1: raise Unsupported('boundary condition flags')
    eng.oblige(st, 'FISHPACK: grid dimensions and ordered bounds', and_(le(I(1), M), le(I(1), N), le(M, idim)))
    bd = []
    for p, need, w in ((pa, N, 'BDA'), (pb, N, 'BDB'), (pc, M, 'BDC'), (pd, M, 'BDD')):
        l, b, v = arr(eng, st, p)
        ge_len(eng, st, v, b, need, w)
        bd.append((lambda v, b: lambda i: rd(v, b, i))(v, b))
    lf, bf, F = arr(eng, st, pf)
    ge_len(eng, st, F, bf, idim * N, 'F')
    nm = fresh('hstcrt').args[0]
    i, j = fresh('q'), fresh('q')
    u = lambda r, c: app(nm, [r, c], REAL)
    dx, dy = rdiv(B - A, toreal(M)), rdiv(D - C, toreal(N))
    rng_ = and_(le(I(0), i), lt(i, M), le(I(0), j), lt(j, N))
    V._Hook.pc = st.fork(rng_).pc
    uc = u(i, j)
    uW = ite(eq(i, I(0)), 2 * bd[0](j) - uc, u(i - 1, j))
    uE = ite(eq(i, M - 1), 2 * bd[1](j) - uc, u(i + 1, j))
    uS = ite(eq(j, I(0)), 2 * bd[2](i) - uc, u(i, j - 1))
    uN = ite(eq(j, N - 1), 2 * bd[3](i) - uc, u(i, j + 1))
    e = rdiv(uE - 2 * uc + uW, dx * dx) + rdiv(uN - 2 * uc + uS, dy * dy) + lam * uc
    f = rd(F, bf, i + j * idim)
    V._Hook.pc = st.pc
    eng.lemmas.append(forall_(i, forall_(j, implies(rng_, eq(e, f)))))
    colmajor(eng, st, lf, F, bf, M, N, idim, lambda r, c: u(r, c))
    for q in (15, 16):
        p = eng.rv(st, a[q], fr)
        eng.put(st, eng.deref(st, p), I(0) if q == 16 else fresh('pertrb', REAL))
    return ('val', None)
