"""Models of the PETSc calls of the patch solver (sequential dense matrix, sequential vectors, LU)."""
from terms import *
from values import *
import values as V
from externs import fun, note, out_param
import engine
from blas import arr, rd


def obj(eng, st, a, fr, cls):
    p = eng.rv(st, a, fr)
    if isinstance(p, Opaque): raise Unsupported('PETSc object used before it is created')
    lv = eng.deref(st, p)
    v = eng.peek(st, lv)
    if not isinstance(v, Struct) or v.cls != cls: raise Unsupported('PETSc object of another kind')
    return lv, v


def setf(eng, st, lv, **fs):
    for f, x in fs.items(): st.store[lv[0]] = vput(st.store[lv[0]], lv[1] + (('f', f),), x)


def create(eng, st, a, fr, v): out_param(eng, st, a, fr, Ptr(eng.alloc(st, v)))


@fun('MatCreate')
def _(eng, st, a, fr, n):
    note(eng, 'PETSc dense matrix assembly and LU solve (nonsingular system, rounding ignored)')
    create(eng, st, a[1], fr, Struct('PetscMat', {'rows': I(0), 'cols': I(0), 'factored': FALSE, 'data': Vec('double', None, I(0), Lam.fn(lambda i: R(0)))}))
    return ('val', I(0))


@fun('MatSetSizes')
def _(eng, st, a, fr, n):
    lv, v = obj(eng, st, a[0], fr, 'PetscMat')
    r, c, R_, C_ = [eng.rv(st, x, fr) for x in a[1:5]]
    eng.oblige(st, 'PETSc: local and global sizes of a sequential matrix agree', and_(eq(r, R_), eq(c, C_)))
    i, j = fresh('i'), fresh('j')
    setf(eng, st, lv, rows=r, cols=c, data=Vec('double', None, r * c, Lam((i, j), R(0), c)))
    return ('val', I(0))


def no_effect(eng, st, a, fr, n): return ('val', I(0))


for _n in ('MatSetType', 'MatSetUp', 'MatSetFromOptions', 'VecSetFromOptions', 'VecSetType', 'MatAssemblyBegin', 'MatAssemblyEnd', 'VecAssemblyBegin', 'VecAssemblyEnd',
           'VecSetUp', 'MatFactorInfoInitialize', 'MatDestroy', 'VecDestroy', 'ISDestroy', 'VecRestoreArray', 'VecRestoreArrayRead', 'MatSeqDenseSetPreallocation'):
    fun(_n)(no_effect)


@fun('ISCreateGeneral')
def _(eng, st, a, fr, n):
    N = eng.rv(st, a[1], fr)
    lv, b, v = arr(eng, st, eng.rv(st, a[2], fr))
    eng.oblige(st, 'PETSc: index set array holds enough entries', le(b + N, v.len))
    create(eng, st, a[4], fr, Struct('PetscIS', {'n': N}))
    return ('val', I(0))


@fun('VecCreate')
def _(eng, st, a, fr, n):
    create(eng, st, a[1], fr, Struct('PetscVec', {'n': I(0), 'data': Vec('double', None, I(0), Lam.fn(lambda i: R(0)))}))
    return ('val', I(0))


@fun('VecSetSizes')
def _(eng, st, a, fr, n):
    lv, v = obj(eng, st, a[0], fr, 'PetscVec')
    r, R_ = eng.rv(st, a[1], fr), eng.rv(st, a[2], fr)
    eng.oblige(st, 'PETSc: local and global sizes of a sequential vector agree', eq(r, R_))
    setf(eng, st, lv, n=r, data=Vec('double', None, r, Lam.fn(lambda i: R(0))))
    return ('val', I(0))


@fun('VecCreateSeq')
def _(eng, st, a, fr, n):
    r = eng.rv(st, a[1], fr)
    create(eng, st, a[2], fr, Struct('PetscVec', {'n': r, 'data': Vec('double', None, r, Lam.fn(lambda i: R(0)))}))
    return ('val', I(0))


@fun('VecDuplicate')
def _(eng, st, a, fr, n):
    lv, v = obj(eng, st, a[0], fr, 'PetscVec')
    create(eng, st, a[1], fr, Struct('PetscVec', {'n': v.f['n'], 'data': Vec('double', None, v.f['n'], Lam.fn(lambda i: R(0)))}))
    return ('val', I(0))


def mode(eng, t):
    """1 insert, 2 add (InsertMode enumerators)"""
    c = cval(t)
    if t.op == 'app' and t.args[0] in ('enum:INSERT_VALUES', 'enum:ADD_VALUES'): return t.args[0] == 'enum:ADD_VALUES'
    if c == 1: return False
    if c == 2: return True
    raise Unsupported('insert mode')


@fun('VecSetValue')
def _(eng, st, a, fr, n):
    lv, v = obj(eng, st, a[0], fr, 'PetscVec')
    i, x, add_ = eng.rv(st, a[1], fr), toreal(eng.rv(st, a[2], fr)), mode(eng, eng.rv(st, a[3], fr))
    vec_set(eng, st, lv, v, i, x, add_)
    return ('val', I(0))


def vec_set(eng, st, lv, v, i, x, add_):
    d = v.f['data']
    k = fresh('k')
    old = d.lam.get(k)
    setf(eng, st, lv, data=Vec('double', None, d.len, Lam(k, ite(eq(k, i), old + x if add_ else x, old))))


@fun('MatSetValue')
def _(eng, st, a, fr, n):
    lv, v = obj(eng, st, a[0], fr, 'PetscMat')
    r, c, x, add_ = eng.rv(st, a[1], fr), eng.rv(st, a[2], fr), toreal(eng.rv(st, a[3], fr)), mode(eng, eng.rv(st, a[4], fr))
    mat_set(eng, st, lv, v, [(TRUE, r, c, x)], add_)
    return ('val', I(0))


def mat_set(eng, st, lv, v, ws, add_):
    d = v.f['data']
    i, j = fresh('i'), fresh('j')
    old = d.lam.get2(i, j)
    # row by row, so that the row is what distinguishes the writes of different iterations
    rows = {}
    for g, r, c, x in ws: rows.setdefault(r, []).append((g, c, x))
    res = old
    for r, l in rows.items():
        e = res
        for g, c, x in l: e = ite(and_(g, eq(j, c)), e + x if add_ else x, e)
        res = ite(eq(i, r), e, res)
    setf(eng, st, lv, data=Vec('double', None, d.len, Lam((i, j), res, d.lam.nc)), factored=FALSE)


def elem(eng, st, v, i):
    if v.elems is not None and cval(i) is not None:
        if not 0 <= int(cval(i)) < len(v.elems): raise Unsupported('array argument too short')
        x = v.elems[int(cval(i))]
    else: x = v.get(i)
    if isinstance(x, Conflict): x = eng.unconflict(st, x)
    return x


@fun('MatSetValues')
def _(eng, st, a, fr, n):
    lv, v = obj(eng, st, a[0], fr, 'PetscMat')
    m, nn = eng.rv(st, a[1], fr), eng.rv(st, a[3], fr)
    lr, br, rv_ = arr(eng, st, eng.rv(st, a[2], fr))
    lc, bc, cv = arr(eng, st, eng.rv(st, a[4], fr))
    lx, bx, xv = arr(eng, st, eng.rv(st, a[5], fr))
    add_ = mode(eng, eng.rv(st, a[6], fr))
    if cval(m) is None or int(cval(m)) > 8: raise Unsupported('number of rows')
    top = cval(nn)
    if top is None:
        if cv.elems is None: raise Unsupported('number of columns')
        top = len(cv.elems) - int(cval(bc))
        eng.oblige(st, 'PETSc: as many columns as the array holds', le(nn, I(top)))
    top = int(top)
    ws = []
    for p in range(int(cval(m))):
        r = elem(eng, st, rv_, br + p)
        for q in range(top):
            g = lt(I(q), nn)
            if g is FALSE: continue
            s = st.fork(g) if g is not TRUE else st
            c, x = elem(eng, s, cv, bc + q), elem(eng, s, xv, bx + p * nn + q)
            if isinstance(c, Opaque) or isinstance(x, Opaque):
                if eng.known(st, not_(g)): continue
                raise Unsupported('uninitialised entry handed to PETSc')
            ws.append((g, r, c, toreal(x)))
    mat_set(eng, st, lv, v, ws, add_)
    return ('val', I(0))


@fun('MatLUFactor')
def _(eng, st, a, fr, n):
    lv, v = obj(eng, st, a[0], fr, 'PetscMat')
    setf(eng, st, lv, factored=TRUE)
    return ('val', I(0))


@fun('MatSolve')
def _(eng, st, a, fr, n):
    lm, A = obj(eng, st, a[0], fr, 'PetscMat')
    lb, b = obj(eng, st, a[1], fr, 'PetscVec')
    lx, x = obj(eng, st, a[2], fr, 'PetscVec')
    N = A.f['rows']
    eng.oblige(st, 'PETSc: the matrix is factored before the solve', A.f['factored'])
    eng.oblige(st, 'PETSc: solve dimensions', and_(eq(A.f['cols'], N), eq(b.f['n'], N), eq(x.f['n'], N)))
    nm = fresh('usol').args[0]
    i, k, q = fresh('q'), fresh('sk'), fresh('k')
    f = lambda r: app(nm, [r], REAL)
    d = A.f['data'].lam
    lhs = sum_body(N, k, d.get2(i, k) * f(k))
    eng.lemmas.append(forall_(i, implies(and_(le(I(0), i), lt(i, N)), eq(lhs, b.f['data'].lam.get(i)))))
    setf(eng, st, lx, data=Vec('double', None, N, Lam(q, f(q))))
    return ('val', I(0))


@fun('VecGetArray', 'VecGetArrayRead')
def _(eng, st, a, fr, n):
    lv, v = obj(eng, st, a[0], fr, 'PetscVec')
    p = eng.rv(st, a[1], fr)
    eng.put(st, eng.deref(st, p), Ptr((lv[0], lv[1] + (('f', 'data'), ('i', I(0))))))
    return ('val', I(0))
