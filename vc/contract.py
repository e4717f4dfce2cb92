"""Contracts: written once, assumed at call sites and proved against the body."""
import time, traceback
from terms import *
import terms as T
from values import *
import values as V
import cast, engine
from engine import Obl, State, Dead, Throw, Frame


class _Any:
    def __repr__(self): return 'ANY'


ANY = _Any()


class Pred:
    """expected value given by a predicate on the actual one; sym(eng) builds a value for call sites"""
    def __init__(self, pred, name='value'): self.pred, self.name = pred, name


def noref(t): return t.rstrip('&').strip()


class Contract:
    def __init__(self, key, spec, nargs=None, ptypes=None, lvret=False, setup=None, title=None, variants=None, group=None,
                 aliases=(), vacuous_ok=False, inline=False, bounded=None, first=None, weak=False):
        self.key, self.spec, self.nargs, self.ptypes = key, spec, nargs, ptypes
        self.setup = setup            # fn(eng, st, this, argv): adjusts the symbolic pre-state
        self.title = title or key
        self.aliases = aliases        # lists of (param, 'this' | param) pairs verified in addition
        self.group = group
        self.vacuous_ok = vacuous_ok
        self.variants = variants      # list of (label, setup): the function is verified once per entry
        self.first = first            # type of the first parameter (where the others are spelt differently)
        self.inline = inline          # verified on its own, but its body is used at call sites
        self.weak = weak              # its terms say little of the texts involved: a refuted obligation alone is no violation
        self.bounded = bounded        # text: what a finite list of variants leaves out

    def matches(self, f):
        if f.key != self.key: return False
        if self.nargs is not None and len(f.params) != self.nargs: return False
        if self.first is not None and noref(f.ptypes[0]) != self.first: return False
        if self.ptypes is not None and [noref(cast.norm_type(x)) for x in self.ptypes] != [noref(x) for x in f.ptypes]: return False
        return True

    @property
    def id(self):
        s = self.key
        if self.ptypes is not None: s += '(' + ', '.join(self.ptypes) + ')'
        elif self.first is not None: s += '(%s, ...)' % self.first
        elif self.nargs is not None: s += '/%d' % self.nargs
        return s


SORT = {'double': REAL, 'int': INT, 'unsigned long': INT, 'bool': BOOL, 'long': INT, 'std::string': 'Str', 'float': REAL}


def sort_of(t):
    return SORT.get(t)


def mkvec(n, fn, et='double'):
    return Vec(et, None, n, Lam.fn(fn))


def mkVector(n, fn, et='double', name=ANY, comps=ANY, typ=ANY):
    return Struct('Vector<%s>' % et, {'size_': n, 'data_': mkvec(n, fn, et), 'name_': name, 'vtkComponents_': comps, 'vtkType_': typ})


def mkMatrix(r, c, fn, et='double'):
    return Struct('Matrix<%s>' % et, {'nrows_': r, 'ncols_': c, 'data_': Vec(et, None, r * c, Lam.fn2(fn, c))})


class VV:
    """view of a Vector value"""
    def __init__(self, s): self.s, self.n = s, s.f['size_']
    def __call__(self, i): return self.s.f['data_'].get(lift(i, INT))


class MV:
    """view of a Matrix value"""
    def __init__(self, s): self.s, self.r, self.c = s, s.f['nrows_'], s.f['ncols_']

    def __call__(self, i, j):
        d = self.s.f['data_']
        i, j = lift(i, INT), lift(j, INT)
        l = d.tolam() if d.elems is not None else d.lam
        if l.nc is not None and l.nc is self.c:
            return l.get2(i, j)
        return d.get(i * self.c + j)


class Sym:
    """symbolic values by C++ type"""
    builders = {}

    @classmethod
    def facts(cls, out, c):
        if out is not None: out.append(c)

    @classmethod
    def value(cls, eng, t, name, facts, ks=(), st=None):
        """symbolic value of type t; ks: index terms it depends on"""
        k, x = eng.tclass(t)
        def leaf(sort, nm=name):
            return app(nm, list(ks), sort) if ks else var(nm, sort)
        if k == 'ref': return cls.value(eng, x, name, facts, ks, st)
        if k == 'int':
            v = leaf(INT)
            if not engine.INTS[x][1] and not ks: cls.facts(facts, le(I(0), v))
            return v
        if k == 'real': return leaf(REAL)
        if k == 'bool': return leaf(BOOL)
        if k == 'str': return leaf('Str')
        if k == 'vec':
            n = leaf(INT, name + '.n')
            if not ks: cls.facts(facts, le(I(0), n))
            kk = fresh('k')
            return Vec(x, None, n, Lam(kk, cls.value(eng, x, name + '[]', None, tuple(ks) + (kk,), st)))
        if k == 'rec':
            b = cls.builders.get(x) or cls.builders.get(x.split('<')[0])
            if b is not None:
                return b(eng, x, name, facts, ks, st)
            return cls.record(eng, x, name, facts, ks, st)
        if k == 'variant': return engine.VARIANTS.sym(x, lambda suffix, sort: leaf(sort, name + suffix))
        if k == 'pair' and eng.targ(x).replace(' ', '') == 'std::string,std::string':
            return Struct('#pair', {'first': leaf('Str', name + '.first'), 'second': leaf('Str', name + '.second')})
        if k == 'map':
            mk_ = fresh('mk', 'Str')
            et = eng.map_et(t)
            return MapV(et, mk_, app(name + '.has', list(ks) + [mk_], BOOL), cls.value(eng, et, name + '.at', None, tuple(ks) + (mk_,), st))
        if k == 'ptr':
            if st is not None and not ks:
                return Ptr(eng.alloc(st, cls.value(eng, x, name + '*', facts, ks, st)))
            return Opaque('ptr ' + name)
        if k == 'fn':
            return fn_sym(eng, t, name)
        return Opaque(name)

    @classmethod
    def record(cls, eng, x, name, facts, ks, st):
        fs = {}
        for n, t, i, o in eng.prog.all_fields(x):
            fs[n] = cls.value(eng, t, name + '.' + n, facts, ks, st)
        return Struct(x, fs)


def sym_vector(eng, cls, name, facts, ks, st):
    et = eng.targ(cls)
    def leaf(nm, s): return app(name + nm, list(ks), s) if ks else var(name + nm, s)
    n = leaf('.size', INT)
    if facts is not None and not ks: facts += [le(I(0), n), lt(n, I(2 ** 60))]
    kk = fresh('k')
    fs = {'size_': n, 'data_': Vec(et, None, n, Lam(kk, app(name, list(ks) + [kk], sort_of(et))))}
    for f in ('name_', 'vtkComponents_', 'vtkType_'): fs[f] = leaf('.' + f, 'Str')
    return Struct(cls, fs)


def sym_matrix(eng, cls, name, facts, ks, st):
    et = eng.targ(cls)
    def leaf(nm, s): return app(name + nm, list(ks), s) if ks else var(name + nm, s)
    r, c = leaf('.nr', INT), leaf('.nc', INT)
    if facts is not None and not ks: facts += [le(I(0), r), le(I(0), c), lt(r, I(2 ** 60)), lt(c, I(2 ** 60))]
    i, j = fresh('i'), fresh('j')
    return Struct(cls, {'nrows_': r, 'ncols_': c, 'data_': Vec(et, None, r * c, Lam((i, j), app(name, list(ks) + [i, j], sort_of(et)), c))})


Sym.builders['Vector'] = sym_vector
Sym.builders['Matrix'] = sym_matrix


def fn_sym(eng, t, name):
    m = engine.re.match(r'std::function<(.*?)\s*\((.*)\)>', cast.norm_type(t))
    if not m: return Opaque('fn ' + name)
    rt, ps = m.group(1).strip(), [p.strip() for p in m.group(2).split(',')] if m.group(2).strip() else []
    def call(eng, st, args, fr):
        vals = []
        for a, pt in zip(args, ps):
            vals.append(eng.rv(st, a, fr))
        if all(isinstance(v, Term) for v in vals) and rt in SORT:
            return ('val', app(name, vals, SORT[rt]))
        raise Unsupported('symbolic function %s' % name)
    fvv = FnVal(name, call)
    fvv.rt, fvv.ps = rt, ps
    return fvv


def apply_fn(fn, *args):
    """value of a symbolic std::function at terms (for specifications)"""
    return app(fn.name, list(args), SORT[fn.rt])


class CallCtx:
    def __init__(self, eng, st, f, this, argv, mode):
        self.eng, self.st, self.f, self.thislv, self.argv, self.mode = eng, st, f, this, argv, mode
        self.names = {p.get('name', str(i)): i for i, p in enumerate(f.params)}
        self.reqs, self.thr, self.sets, self.ens, self.assumes = [], [], [], [], []
        self.retv = None
        self.pre = st if mode == 'verify' else st.fork()
        self.post_hooks = []
        self.events = None

    # ---- reading
    @property
    def this(self): return self.eng.peek(self.pre, self.thislv)

    def val(self, i):
        a = self.argv[i if isinstance(i, int) else self.names[i]]
        if a[0] == 'lv': return self.eng.peek(self.pre, a[1])
        return a[1]

    __getitem__ = val

    def field(self, *path):
        """lvalue of a field of *this"""
        return (self.thislv[0], self.thislv[1] + tuple(('f', p) for p in path))

    def lvarg(self, i):
        a = self.argv[i if isinstance(i, int) else self.names[i]]
        if a[0] != 'lv': raise Unsupported('argument %s is not a reference' % i)
        return a[1]

    def V(self, i): return VV(self.val(i))
    def M(self, i): return MV(self.val(i))

    # ---- clauses
    def requires(self, c):
        if self.mode == 'apply': self.eng.oblige(self.st, 'precondition of %s' % self.f.key, c)
        else: self.reqs.append(c)

    def known(self, c): return self.eng.known(self.pre, c)

    def throws(self, c):
        """an exception is raised exactly when c holds"""
        self.thr.append(c)
        if self.mode == 'apply' and c is not FALSE:
            e = self.eng
            if e.known(self.st, not_(c)):
                # what is implied anyway is only repeated when it is a simple fact
                if not any(x.op == 'forall' for x in subterms(c)): self.st.assume(not_(c))
                return
            t = self.st.fork(c)
            e.throws.append(Throw(t, 'contract', self.f.sig))
            if e.known(self.st, c): raise Dead()
            self.st.assume(not_(c))
            self.pre.assume(not_(c))

    def ret(self, v): self.retv = ('val', v)
    def ret_lv(self, lv): self.retv = ('lv', lv)
    def set(self, lv, v): self.sets.append((lv, v))
    def setthis(self, v): self.sets.append((self.thislv, v))
    def ensures(self, fn, name='postcondition'): self.ens.append((fn, name))
    def fact(self, c):
        """consequence of the precondition that the caller may use (apply mode only)"""
        if self.mode == 'apply': self.st.assume(c)

    # ---- call site
    def concretise(self, v, t, name):
        """replace ANY parts by fresh values"""
        e = self.eng
        if v is ANY:
            return Sym.value(e, t, fresh(name).args[0], None, (), self.st) if t else Opaque('unspecified')
        if isinstance(v, Struct):
            tys = {n: tt for n, tt, i, o in (e.prog.all_fields(v.cls) or [])}
            return Struct(v.cls, {n: self.concretise(x, tys.get(n), name + '.' + n) for n, x in v.f.items()})
        if isinstance(v, Vec) and v.elems is not None:
            return Vec(v.et, [self.concretise(x, v.et, name) for x in v.elems])
        return v

    def finish_apply(self):
        e, st = self.eng, self.st
        for lv, v in self.sets:
            k = e.peek(st, lv) if v is ANY else None
            if v is ANY:
                v = Sym.value(e, k.cls, fresh('havoc').args[0], None, (), st) if isinstance(k, Struct) else (fresh('havoc', k.sort) if isinstance(k, Term) else Opaque('havoc'))
            elif isinstance(v, Pred):
                raise Unsupported('predicate result at call site')
            elif isinstance(v, Struct):
                old = e.peek(st, lv)
                if isinstance(old, Struct):
                    keep = {n: (old.f[n] if n in old.f and x is ANY and old.f[n] is not UNINIT else x) for n, x in v.f.items()}
                    extra = {n: x for n, x in old.f.items() if n not in v.f}
                    v = Struct(old.cls, {**keep, **extra})
                v = self.concretise(v, None, 'set')
            st.store[lv[0]] = vput(st.store[lv[0]], lv[1], v)
        for k, x in self.events or []:
            st.trace.append((k,) + tuple(x))
        r = self.retv
        if r is None: r = ('val', None)
        if r[0] == 'val':
            v = r[1]
            if isinstance(v, (Struct, Vec, _Any)) and v is not None:
                v = self.concretise(v, rtype(self.f), 'ret')
            r = ('val', v)
        for fn, name in self.ens:
            v = r[1] if r[0] == 'val' else e.peek(st, r[1])
            st.assume(fn(v, lambda lv: e.peek(st, lv)))
        return r


def rtype(f):
    return cast.norm_type(f.ftype.split('(')[0].strip())


engine.CallCtx = CallCtx


# ------------------------------------------------------------------ comparison
def compare(eng, st, exp, act, name, rows=None, depth=0):
    """obligations stating that the actual value equals the expected one"""
    if exp is ANY: return
    act = eng.unconflict(st, act)
    if isinstance(exp, Pred):
        eng.oblige(st.fork(), name + ': ' + exp.name, exp.pred(act))
        return
    if exp is None:
        return
    if isinstance(exp, Term):
        if not isinstance(act, Term):
            if isinstance(act, Opaque):
                raise Unsupported('%s is %r' % (name, act))
            raise Unsupported('%s: compare %s with %r' % (name, exp.sort, act))
        if act.sort != exp.sort and {act.sort, exp.sort} == {INT, REAL}:
            act, exp = toreal(act), toreal(exp)
        if act.sort != exp.sort:
            raise Unsupported('%s: sorts differ' % name)
        eng.oblige(st.fork(), name, eq(act, exp))
        return
    if isinstance(exp, Struct):
        if not isinstance(act, Struct): raise Unsupported('%s: compare struct with %r' % (name, act))
        if exp.cls.startswith('Matrix<') and 'nrows_' in exp.f:
            compare(eng, st, exp.f['nrows_'], act.f['nrows_'], name + '.nrows')
            compare(eng, st, exp.f['ncols_'], act.f['ncols_'], name + '.ncols')
            s2 = st.fork()
            s2.assume(eq(act.f['nrows_'], exp.f['nrows_']))
            s2.assume(eq(act.f['ncols_'], exp.f['ncols_']))
            if exp.f['data_'] is not ANY:
                vec_compare(eng, s2, exp.f['data_'], act.f['data_'], name, rows=exp.f['nrows_'])
            return
        for n, x in exp.f.items():
            if x is ANY: continue
            if n not in act.f: raise Unsupported('%s: field %s missing' % (name, n))
            compare(eng, st, x, act.f[n], name + '.' + n, depth=depth + 1)
        return
    if isinstance(exp, Vec):
        vec_compare(eng, st, exp, act, name, rows)
        return
    if isinstance(exp, Ptr):
        if not isinstance(act, Ptr): raise Unsupported('%s: pointer expected' % name)
        if exp.loc is None:
            eng.oblige(st.fork(), name + ' is null', act.null)
            return
        if act.loc is None:
            eng.oblige(st.fork(), name + ' is null where expected', exp.null)
            return
        ok = exp.loc[0] == act.loc[0] and len(exp.loc[1]) == len(act.loc[1]) and all(a[0] == b[0] for a, b in zip(exp.loc[1], act.loc[1]))
        cs = [eq(exp.null, act.null)]
        if ok:
            for a, b in zip(exp.loc[1], act.loc[1]):
                if isinstance(a[1], Term) and isinstance(b[1], Term): cs.append(eq(a[1], b[1]))
                elif a[1] != b[1]: ok = False
        eng.oblige(st.fork(), name + ' points to the expected object', and_(*cs) if ok else FALSE)
        return
    if isinstance(exp, MapV):
        k = var('key!', 'Str')
        eng.oblige(st.fork(), name + ' keys', eq(exp.has_at(k), act.has_at(k)))
        s2 = st.fork(exp.has_at(k))
        compare(eng, s2, exp.at(k), act.at(k), name + ' values')
        return
    if exp is act or same(exp, act): return
    raise Unsupported('%s: cannot compare %r with %r' % (name, exp, act))


def vec_compare(eng, st, exp, act, name, rows=None):
    if not isinstance(act, Vec): raise Unsupported('%s: compare array with %r' % (name, act))
    if exp.elems is not None and act.elems is not None and len(exp.elems) == len(act.elems):
        for i, (a, b) in enumerate(zip(exp.elems, act.elems)):
            compare(eng, st, a, b, '%s[%d]' % (name, i))
        return
    eng.oblige(st.fork(), name + ' length', eq(act.len, exp.len))
    s = st.fork()
    s.assume(eq(act.len, exp.len))
    V._Hook.pc = s.pc
    le_, la = exp.tolam(), act.tolam()
    if le_.nc is not None or la.nc is not None:
        nc = le_.nc if le_.nc is not None else la.nc
        i, j = var('i0'), var('j0')
        facts = [le(I(0), i), le(I(0), j), lt(j, nc)]
        if rows is not None: facts.append(lt(i, rows))
        facts.append(lt(i * nc + j, exp.len))
        for c in facts: s.assume(c)
        V._Hook.pc = s.pc
        def rd(l):
            if l.nc is nc: return l.get2(i, j)
            if l.nc is not None and eng.known(s, eq(l.nc, nc)): return l.get2(i, j)
            return l.get(i * nc + j)
        compare(eng, s, rd(le_), rd(la), name + '(i,j)')
        return
    k = var('k0')
    s.assume(le(I(0), k))
    s.assume(lt(k, exp.len))
    V._Hook.pc = s.pc
    compare(eng, s, le_.get(k), la.get(k), name + '[k]')


# ------------------------------------------------------------------ verification of one function
class Report:
    def __init__(self, con, func):
        self.con, self.func = con, func
        self.obls, self.unsupported, self.error = [], None, None
        self.time = 0
        self.used, self.inlined, self.assumed = [], [], []
        self.branches = 0

    @property
    def failed(self): return [o for o in self.obls if not o.ok]


def verify(prog, contracts, externs, con, func, budget=300, variant=None):
    eng = engine.Engine(prog, contracts, externs)
    rep = Report(con, func)
    t0 = time.time()
    eng.deadline = t0 + budget
    T.DEADLINE[0] = eng.deadline
    eng.cur, eng.curname = con, func.sig
    try:
        for lab, setup in con.variants or [('', con.setup)]:
            for al in [()] + list(con.aliases):
                run_one(eng, con, func, al, setup, lab)
    except Unsupported as e:
        rep.unsupported = str(e)
    except engine.OpaqueLV as e:
        rep.unsupported = 'external object %s' % e.what
    except Dead:
        rep.unsupported = 'no path through the function'
    except RecursionError:
        rep.unsupported = 'recursion limit of the translator'
    except (KeyError, AttributeError, TypeError, IndexError, AssertionError, ValueError) as e:
        rep.unsupported = 'translator: %s: %s' % (type(e).__name__, traceback.format_exc()[-600:])
    rep.obls = eng.obls
    rep.time = time.time() - t0
    rep.used = sorted({c.id for c in eng.used})
    rep.usedc = list(eng.used)
    rep.inlined = sorted(eng.inlined)
    rep.assumed = sorted(eng.assumed)
    return rep


def run_one(eng, con, f, alias, setup=None, label=''):
    st = State()
    facts = []
    is_ctor = f.kind == 'CXXConstructorDecl'
    eng.throws = []
    eng.wide = False
    this = None
    lvs = {}
    if f.cls is not None and not f.static:
        if is_ctor:
            this = eng.alloc(st, eng.skeleton(st, f.cls))
        else:
            this = eng.alloc(st, Sym.value(eng, f.cls, 'this', facts, (), st))
        lvs['this'] = this
    argv = []
    al = dict(alias)
    for i, p in enumerate(f.params):
        t = cast.qt(p)
        nm = p.get('name', 'arg%d' % i)
        k, x = eng.tclass(t)
        if nm in al and k != 'ref': return
        if nm in al:
            if al[nm] == 'this[]':
                # an element of the object's own storage
                e, tv = var('e_alias'), eng.peek(st, this)
                facts += [le(I(0), e), lt(e, tv.f['data_'].len)]
                argv.append(('lv', (this[0], this[1] + (('f', 'data_'), ('i', e)))))
            else: argv.append(('lv', lvs[al[nm]]))
            continue
        v = Sym.value(eng, t, nm, facts, (), st)
        if k == 'ref':
            lv = eng.alloc(st, v)
            lvs[nm] = lv
            argv.append(('lv', lv))
        else:
            argv.append(('val', v))
    for c in facts: st.assume(c)
    if setup is not None:
        r = setup(eng, st, this, argv)
        if r is not None: argv = r
    pre = st.fork()
    V._Hook.pc = pre.pc
    ctx = CallCtx(eng, pre, f, this, argv, 'verify')
    con.spec(ctx)
    for c in ctx.reqs:
        st.assume(c)
        pre.assume(c)
    tag = (' [alias]' if alias else '') + (' [%s]' % label if label else '')
    # vacuity guard: the precondition must be satisfiable
    if not con.vacuous_ok and not eng.feasible(st):
        eng.obls.append(Obl('precondition is satisfiable', False, 'vacuous', FALSE, 0, None, f.sig))
        return
    dead = False
    try:
        if is_ctor:
            eng.call_body(st, f, this, argv, ctor_cls=f.cls)
            res = ('val', None)
        else:
            res = eng.call_body(st, f, this, argv)
    except Dead:
        dead = True
    thr = or_(*ctx.thr) if ctx.thr else FALSE
    for t in eng.throws:
        if not eng.feasible(t.state): continue
        eng.oblige(t.state.fork(), 'throws only where the contract says so' + tag, thr)
    if dead:
        s = pre.fork()
        eng.oblige(s, 'normal return exactly where the contract says so' + tag, thr)
        return
    if thr is not FALSE:
        eng.oblige(st.fork(), 'normal return only where the contract says so' + tag, not_(thr))
    # result
    if ctx.retv is not None:
        if ctx.retv[0] == 'lv':
            if res[0] != 'lv': raise Unsupported('reference result expected')
            compare(eng, st, Ptr(ctx.retv[1]), Ptr(res[1]), 'result' + tag)
        else:
            v = res[1] if res[0] == 'val' else eng.peek(st, res[1])
            compare(eng, st, ctx.retv[1], v, 'result' + tag)
    # effects
    for lv, v in ctx.sets:
        act = eng.peek(st, lv)
        compare(eng, st, v, act, lvname(lv, this, lvs) + ' afterwards' + tag)
    for fn, name in ctx.ens:
        v = None
        if res is not None: v = res[1] if res[0] == 'val' else eng.peek(st, res[1])
        eng.oblige(st.fork(), name + tag, fn(v, lambda lv: eng.peek(st, lv)))
    # frame: everything reachable before and not mentioned is unchanged
    setl = [lv for lv, v in ctx.sets]
    for cell, v in pre.store.items():
        if cell not in st.store: continue
        frame_check(eng, st, (cell, ()), v, st.store[cell], setl, lvname((cell, ()), this, lvs))
    if ctx.events is not None:
        check_events(eng, st, ctx.events, tag)
    if res is not None:
        ctx.result = res[1] if res[0] == 'val' else eng.peek(st, res[1])
        ctx.res_lv = res[1] if res[0] == 'lv' else None
    for h in ctx.post_hooks: h(eng, st, pre, tag)
    return


def check_events(eng, st, events, tag=''):
    tr = st.trace
    eng.oblige(st.fork(), 'sequence of external operations' + tag, TRUE if len(tr) == len(events) and all(a[0] == b[0] for a, b in zip(tr, events)) else FALSE)
    for n, (a, b) in enumerate(zip(tr, events)):
        for m, (x, y) in enumerate(zip(a[1:], b[1])):
            compare(eng, st, y, x, '%s argument %d%s' % (b[0], m, tag))


def frame_check(eng, st, lv, old, new, setl, name):
    if old is new: return
    if any(s[0] == lv[0] and s[1] == lv[1] for s in setl): return
    inner = [s for s in setl if s[0] == lv[0] and s[1][:len(lv[1])] == lv[1]]
    if isinstance(old, Struct) and isinstance(new, Struct) and old.f.keys() == new.f.keys():
        for n in old.f:
            frame_check(eng, st, (lv[0], lv[1] + (('f', n),)), old.f[n], new.f[n], setl, name + '.' + n)
        return
    if inner: return
    if same(old, new): return
    if old is UNINIT: return
    if isinstance(old, Vec) and lv[1] and lv[1][-1] == ('f', 'data_'):
        pass
    compare(eng, st, old, new, name + ' unchanged')


def lvname(lv, this, lvs):
    for n, l in lvs.items():
        if l[0] == lv[0]:
            return n + ''.join('.' + str(x[1]) if x[0] == 'f' else '[..]' for x in lv[1][len(l[1]):])
    return 'heap object'
