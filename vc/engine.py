"""Symbolic execution of the real code (clang AST) against contracts."""
import re, itertools, time
from terms import *
import terms as T
from values import *
import values as V
import cast

_cell = itertools.count(1)
MAXINT = 2 ** 31

INTS = {'int': (32, True), 'unsigned int': (32, False), 'long': (64, True), 'unsigned long': (64, False),
        'long long': (64, True), 'unsigned long long': (64, False), 'short': (16, True), 'char': (8, True),
        'signed char': (8, True), 'unsigned char': (8, False), 'unsigned short': (16, False),
        'std::size_t': (64, False), 'size_t': (64, False), 'PetscInt': (32, True), 'MPI_Comm': (64, True),
        'int32_t': (32, True), 'int8_t': (8, True), 'int16_t': (16, True), 'int64_t': (64, True), 'uint32_t': (32, False),
        'uint64_t': (64, False), 'p4est_topidx_t': (32, True), 'p4est_locidx_t': (32, True), 'p4est_qcoord_t': (32, True),
        'std::ptrdiff_t': (64, True), 'difference_type': (64, True), 'size_type': (64, False), 'InsertMode': (32, True)}
REALS = {'double', 'float', 'PetscScalar', 'PetscReal', 'long double'}


class State:
    __slots__ = ('store', 'pc', 'trace')

    def __init__(self):
        self.store, self.pc, self.trace = {}, [], []

    def fork(self, c=None):
        s = State()
        s.store = dict(self.store)
        s.pc = list(self.pc)
        s.trace = list(self.trace)
        if c is not None:
            s.pc.append(c)
        return s

    def become(self, o):
        self.store, self.pc, self.trace = o.store, o.pc, o.trace

    def assume(self, c):
        if c is TRUE:
            return
        if c.op == 'and':
            for x in c.args:
                self.assume(x)
            return
        if c not in self.pc:
            self.pc.append(c)


class Frame:
    def __init__(self, func, env, this, eng):
        self.func, self.env, self.this = func, env, this
        self.returns = []
        self.ret_ref = False
        self.loops = []


class LoopCtl:
    def __init__(self):
        self.breaks, self.continues = [], []


class Throw:
    def __init__(self, state, etype, where): self.state, self.etype, self.where = state, etype, where


class Obl:
    __slots__ = ('name', 'ok', 'status', 'goal', 'time', 'model', 'func', 'hyps')

    def __init__(self, name, ok, status, goal, t, model, func, hyps=None):
        self.name, self.ok, self.status, self.goal, self.time, self.model, self.func, self.hyps = name, ok, status, goal, t, model, func, hyps


class Dead(Exception):
    """current path cannot continue"""


class Engine:
    def __init__(self, prog, contracts, externs):
        self.prog = prog
        self.contracts = contracts      # lookup function: Func -> Contract or None
        self.ext = externs
        self.obls = []
        self.overrides = {}
        self.wide = False
        self.keep_at, self.kept = None, []     # outcomes of a callback kept apart, one per path
        self.loop_candidates = None   # templates of loop invariants
        self.loop_bounds = lambda eng, st: []        # calls whose occurrence and arguments are what a contract speaks about
        self.lemmas = []           # facts about results of external solvers, used only where a contract instantiates them
        self.quiet = 0
        self.throws = []
        self.fold = None
        self.depth = 0
        self.cur = None            # contract under verification
        self.curname = ''
        self.used = set()          # contracts used at call sites
        self.inlined = set()
        self.assumed = set()       # external models used
        self.call_stack = []
        self.globals = {}
        self.default_opts = {}
        self.deadline = None
        V._defaults.clear()

    # -------------------------------------------------------------- obligations
    def oblige(self, st, name, goal, extra=()):
        if self.quiet:
            st.assume(goal)
            return True
        if goal is TRUE:
            self.obls.append(Obl(name, True, 'simplifier', goal, 0, None, self.curname))
            return True
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the function exhausted')
        t = time.time()
        r = prove(st.pc, goal, insts=extra)
        model = None
        if not r:
            # a second attempt with a longer limit, then keep the counterexample
            r = prove(st.pc, goal, timeout=T.TIMEOUT_MS * 3, want_model=True, insts=extra)
            model = r.model
            if not r and any(x.op == 'ite' and x.sort == REAL for x in subterms(goal)):
                import sums
                r = sums.by_cases(list(st.pc), goal, [120])
        self.obls.append(Obl(name, bool(r), 'z3:' + r.status, goal, time.time() - t, model, self.curname, list(st.pc) if not r else None))
        st.assume(goal)
        return bool(r)

    def known(self, st, c, timeout=1500):
        if c is TRUE: return True
        if c is FALSE: return False
        return bool(prove(st.pc, c, timeout=timeout))

    def feasible(self, st):
        return not prove(st.pc, FALSE, timeout=1500)

    # -------------------------------------------------------------- memory
    def alloc(self, st, v):
        c = next(_cell)
        st.store[c] = v
        return (c, ())

    def hook(self, st):
        V._Hook.pc = st.pc

    def load(self, st, lv):
        if isinstance(lv, Ptr):
            raise Unsupported('load of pointer value')
        cell, path = lv
        if cell not in st.store:
            raise Unsupported('dangling cell')
        self.hook(st)
        v = st.store[cell]
        cur = v
        for n, (kind, x) in enumerate(path):
            if kind == 'i' and isinstance(cur, Vec):
                self.bounds(st, cur, x)
            cur = vget(cur, ((kind, x),))
            if isinstance(cur, Conflict):
                cur = self.unconflict(st, cur)
        if isinstance(cur, Conflict):
            cur = self.unconflict(st, cur)
        return cur

    def unconflict(self, st, v):
        while isinstance(v, Conflict):
            if self.known(st, v.c): v = v.a
            elif self.known(st, not_(v.c)): v = v.b
            else: return v
        return v

    def bounds(self, st, vec, i):
        if vec.et == '#heap': return      # objects named by numbers, not elements of a sequence
        if vec.elems is None and vec.lam.nc is not None and cval(i) is None:
            # row-major array: row and column in range
            self.hook(st)
            rows, z = split_by(vec.len, vec.lam.nc)
            qr = V.resolve(i, vec.lam.nc)
            if qr is not None and z is not None and cval(z) == 0 and rows is not None:
                g = and_(le(I(0), qr[0]), lt(qr[0], rows))
                if self.known(st, g):
                    self.oblige(st, 'index in bounds', g)
                    st.assume(and_(le(I(0), i), lt(i, vec.len)))
                    return
        self.oblige(st, 'index in bounds', and_(le(I(0), i), lt(i, vec.len)))

    def put(self, st, lv, v):
        cell, path = lv
        self.hook(st)
        cur = st.store.get(cell)
        c2 = cur
        for n, (kind, x) in enumerate(path):
            if kind == 'i' and isinstance(c2, Vec):
                self.bounds(st, c2, x)
            if n < len(path) - 1 or kind == 'i':
                c2 = vget(c2, ((kind, x),)) if n < len(path) - 1 else None
        st.store[cell] = vput(cur, path, v)

    # -------------------------------------------------------------- types
    def tclass(self, t):
        t = cast.norm_type(t)
        if t.endswith('&&') or t.endswith('&'):
            return 'ref', t.rstrip('&').strip()
        if t.endswith('*'):
            return 'ptr', t[:-1].strip()
        if t == 'bool': return 'bool', t
        if t in INTS: return 'int', t
        if t in REALS: return 'real', t
        if t.startswith('std::string') and t in ('std::string', 'std::string_view'): return 'str', t
        if t.startswith('std::vector<') or t.startswith('vector<'):
            return 'vec', self.targ(t)
        if t.startswith('std::initializer_list<') or t.startswith('initializer_list<'):
            return 'vec', self.targ(t)
        if t.startswith('std::array<'):
            return 'vec', self.targ(t).rsplit(',', 1)[0].strip()
        if t.endswith(']'):
            return 'vec', t[:t.index('[')].strip()
        if t in self.prog.records: return 'rec', t
        if t in self.prog.enumtypes: return 'int', 'int'
        if t.startswith('__gnu_cxx::__normal_iterator<') or 'iterator' in t: return 'ptr', t
        if t.startswith('std::function<'): return 'fn', t
        if t.startswith('std::map<') or t.startswith('std::unordered_map<'):
            return 'map', t
        if t in ('MPI::Communicator', 'ompi_communicator_t*'): return 'int', 'long'
        if t.startswith('std::variant<'): return 'variant', t
        if t.startswith('std::pair<'): return 'pair', t
        return 'opaque', t

    def targ(self, t):
        i = t.index('<')
        return t[i + 1:t.rindex('>')].strip()

    def default(self, st, t):
        """default-initialised value of type t"""
        k, x = self.tclass(t)
        if k == 'vec':
            t2 = cast.norm_type(t)
            m = re.search(r'\[(\d+)\]$', t2)
            if m:
                return Vec(x, [self.default(st, x) for _ in range(int(m.group(1)))])
            m = re.match(r'std::array<(.*), (\d+)>$', t2)
            if m:
                return Vec(m.group(1), [self.default(st, m.group(1)) for _ in range(int(m.group(2)))])
            return Vec(x, [])
        if k == 'str': return strlit('')
        if k == 'rec':
            return self.construct(st, x, [], None)
        if k == 'ptr': return Ptr(None) if False else UNINIT
        if k == 'map': return MapV(self.map_et(t), fresh('mk', 'Str'), FALSE, UNINIT)
        if k in ('int', 'real', 'bool'): return UNINIT
        if k == 'variant': return VARIANTS.empty(x)
        return Opaque(x)

    def map_et(self, t):
        a = self.targ(cast.norm_type(t))
        return a.split(',', 1)[1].strip() if ',' in a else a

    def zero(self, st, t):
        k, x = self.tclass(t)
        if k == 'int': return I(0)
        if k == 'real': return R(0)
        if k == 'bool': return FALSE
        if k == 'ptr': return Ptr(None)
        return self.default(st, t)

    # -------------------------------------------------------------- records
    def construct(self, st, cls, args, node, argtypes=None, ctor_type=None, list_init=False):
        """args: list of argument expression nodes or ('val', v) pairs; returns value"""
        rec = self.prog.records.get(cls)
        if rec is None or not rec.full:
            raise Unsupported('construct %s' % cls)
        name = cls.split('<')[0].split('::')[-1]
        ctors = [m for m in rec.methods if m.kind == 'CXXConstructorDecl']
        cand = None
        if ctor_type is not None:
            for m in ctors:
                if m.ftype == ctor_type or cast.norm_type(m.ftype) == cast.norm_type(ctor_type):
                    cand = m
                    break
        if cand is None:
            n = len(args)
            cs = [m for m in ctors if len(m.params) == n]
            if len(cs) == 1:
                cand = cs[0]
            elif n == 0:
                cs = [m for m in ctors if len(m.params) == 0 or all(any('Comment' not in z.get('kind', '') for z in p.get('inner', [])) for p in m.params)]
                cand = cs[0] if cs else None
        if cand is None:
            raise Unsupported('constructor of %s %s' % (cls, ctor_type))
        return self.run_ctor(st, cls, cand, args)

    def is_copy_ctor(self, cls, f):
        return len(f.params) == 1 and cast.norm_type(cast.qt(f.params[0])).rstrip('&').strip() == cls

    def skeleton(self, st, cls):
        """uninitialised object with default member initialisers not yet applied"""
        fs = {}
        for n, t, init, owner in self.prog.all_fields(cls):
            fs[n] = UNINIT
        return Struct(cls, fs)

    def run_ctor(self, st, cls, cand, args, into=None):
        """runs constructor cand of cls; args nodes/pairs already bound in caller frame `self.frame`"""
        d = self.prog.definition(cand.id) or (cand if cand.body is not None else None)
        if d is None:
            # implicit / defaulted constructor
            if len(cand.params) == 0:
                lv = into or self.alloc(st, self.skeleton(st, cls))
                self.init_members(st, cls, lv, {}, None)
                return self.load(st, lv) if into is None else None
            if self.is_copy_ctor(cls, cand):
                v = self.arg_val(st, args[0])
                v = self.copy_members(st, cls, v)
                if into is None:
                    return v
                self.put_fields(st, into, cls, v)
                return None
            raise Unsupported('constructor without body %s' % cand.sig)
        lv = into or self.alloc(st, self.skeleton(st, cls))
        con = self.contracts(d)
        if con is not None and con.inline: con = None
        argv = self.bind_args(st, d, args)
        h = self.overrides.get(d.key) if self.call_stack else None
        if h is not None:
            h(self, st, d, lv, argv)
            return self.load(st, lv) if into is None else None
        if con is not None and con is not self.cur_con() and into is None:
            r = self.apply_contract(st, con, d, lv, argv)
            return self.load(st, lv)
        self.call_body(st, d, lv, argv, ctor_cls=cls)
        return self.load(st, lv) if into is None else None

    def put_fields(self, st, lv, cls, v):
        for n, t, i, o in self.prog.all_fields(cls):
            if n in v.f:
                self.put(st, (lv[0], lv[1] + (('f', n),)), v.f[n])

    def copy_members(self, st, cls, v):
        if not isinstance(v, Struct):
            raise Unsupported('copy of %s' % type(v).__name__)
        fs = {}
        tys = {n: t for n, t, i, o in self.prog.all_fields(cls)}
        for n, x in v.f.items():
            if n not in tys:
                continue
            fs[n] = self.copy_value(st, tys[n], x)
        return Struct(cls, fs)

    def has_user_copy(self, cls):
        rec = self.prog.records.get(cls)
        if rec is None: return None
        for m in rec.methods:
            if m.kind == 'CXXConstructorDecl' and self.is_copy_ctor(cls, m):
                d = self.prog.definition(m.id)
                if d is not None and not m.defaulted and d.ftype.find('const') >= 0:
                    return d
        return None

    def copy_value(self, st, t, v):
        k, x = self.tclass(t)
        if k == 'rec' and isinstance(v, Struct):
            d = self.has_user_copy(x)
            if d is not None:
                lv = self.alloc(st, v)
                return self.run_ctor(st, x, d, [('lv', lv)])
            return self.copy_members(st, x, v)
        return v

    def init_members(self, st, cls, lv, inits, frame):
        rec = self.prog.records[cls]
        for b in rec.bases:
            if b in inits:
                self.init_base(st, b, lv, inits[b], frame)
            else:
                rb = self.prog.records.get(b)
                if rb is None or not rb.full:
                    continue
                cs = [m for m in rb.methods if m.kind == 'CXXConstructorDecl' and len(m.params) == 0]
                if cs and self.prog.definition(cs[0].id) is not None:
                    self.run_ctor(st, b, cs[0], [], into=lv)
                else:
                    self.init_members(st, b, lv, {}, frame)
        for n, t, initnode in rec.fields:
            flv = (lv[0], lv[1] + (('f', n),))
            if n in inits:
                node = inits[n]
                v = self.init_value(st, t, node, frame)
            elif initnode is not None:
                v = self.init_value(st, t, initnode, Frame(None, {}, lv, self))
            else:
                v = self.default(st, t)
            self.put(st, flv, v)

    def init_value(self, st, t, node, frame):
        k, x = self.tclass(t)
        if k == 'ref':
            lv = self.lv(st, node, frame)
            return Ptr(lv)
        return self.rv(st, node, frame)

    def init_base(self, st, b, lv, node, frame):
        while node.get('kind') in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ImplicitCastExpr'):
            node = node['inner'][0]
        if node.get('kind') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            ct = node.get('ctorType', {}).get('qualType')
            rb = self.prog.records.get(b)
            if rb is None or not rb.full:
                return
            for m in rb.methods:
                if m.kind == 'CXXConstructorDecl' and (ct is None or m.ftype == ct or cast.norm_type(m.ftype) == cast.norm_type(ct)):
                    self.run_ctor(st, b, m, [('node', a, frame) for a in node.get('inner', [])], into=lv)
                    return
        if node.get('kind') == 'CXXInheritedCtorInitExpr':
            raise Unsupported('inherited constructor')
        raise Unsupported('base initialiser %s' % node.get('kind'))

    # -------------------------------------------------------------- calls
    def arg_val(self, st, a):
        if a[0] == 'node': return self.rv(st, a[1], a[2])
        if a[0] == 'lv': return self.load(st, a[1])
        return a[1]

    def bind_args(self, st, f, args):
        """evaluate arguments: returns list of ('lv', lvalue) for references or ('val', v)"""
        out = []
        for i, p in enumerate(f.params):
            k, x = self.tclass(cast.qt(p))
            if i >= len(args):
                d = [z for z in p.get('inner', []) if 'Comment' not in z.get('kind', '')]
                if not d:
                    d = self.param_default(f, i)
                a = ('node', d[0], Frame(f, {}, None, self))
            else:
                a = args[i]
            if a[0] == 'node' and a[1].get('kind') == 'CXXDefaultArgExpr':
                d = [z for z in p.get('inner', []) if 'Comment' not in z.get('kind', '')] or self.param_default(f, i)
                if not d:
                    raise Unsupported('default argument of %s' % f.sig)
                a = ('node', d[0], Frame(f, {}, None, self))
            if k == 'ref':
                if a[0] == 'node': out.append(('lv', self.lv(st, a[1], a[2])))
                elif a[0] == 'lv': out.append(a)
                else: out.append(('lv', self.alloc(st, a[1])))
            else:
                v = self.arg_val(st, a)
                if a[0] == 'lv':
                    v = self.copy_value(st, cast.qt(p), v)
                out.append(('val', v))
        return out

    def param_default(self, f, i):
        pid = f.node.get('previousDecl')
        while pid:
            g = self.prog.funcs.get(pid)
            if g is None: break
            d = [z for z in g.params[i].get('inner', []) if 'Comment' not in z.get('kind', '')]
            if d: return d
            pid = g.node.get('previousDecl')
        for g in self.prog.by_key.get(f.key, []):
            if len(g.params) == len(f.params):
                d = [z for z in g.params[i].get('inner', []) if 'Comment' not in z.get('kind', '')]
                if d: return d
        return []

    def cur_con(self):
        return self.cur if len(self.call_stack) == 0 else None

    def call_func(self, st, f, this, args):
        """args: list of ('node',n,frame)/('lv',lv)/('val',v). returns (kind, x): ('val',v) or ('lv',lv)"""
        d = self.prog.definition(f.id) or (f if f.body is not None else None)
        target = d or f
        argv = self.bind_args(st, target, args)
        h = self.overrides.get(target.key)
        if h is not None: return h(self, st, target, this, argv)
        con = self.contracts(target)
        if con is not None and con.inline: con = None
        if con is not None and not (con is self.cur and self.depth == 0):
            return self.apply_contract(st, con, target, this, argv)
        h = self.ext.user(self, target)
        if h is not None:
            return h(self, st, target, this, argv)
        if d is None:
            if target.name == 'operator=' and target.cls and len(argv) == 1:
                # implicit / defaulted assignment: memberwise
                v = self.arg_val(st, argv[0])
                self.assign_members(st, target.cls, this, v)
                return ('lv', this)
            # virtual base: dispatch is not resolved
            raise Unsupported('no body and no contract: %s' % target.sig)
        self.inlined.add(d.sig)
        return self.call_body(st, d, this, argv)

    def assign_members(self, st, cls, lv, v):
        """implicit copy assignment: memberwise, honouring user-provided member assignments"""
        for n, t, i, o in self.prog.all_fields(cls):
            if n not in v.f:
                continue
            k, x = self.tclass(t)
            flv = (lv[0], lv[1] + (('f', n),))
            if k == 'rec':
                self.assign_record(st, x, flv, v.f[n])
            else:
                self.put(st, flv, v.f[n])

    def assign_record(self, st, cls, lv, v):
        rec = self.prog.records.get(cls)
        for m in rec.methods:
            if m.name == 'operator=' and len(m.params) == 1 and not m.defaulted and self.prog.definition(m.id) is not None \
                    and cast.norm_type(cast.qt(m.params[0])).rstrip('&').strip() == cls:
                tmp = self.alloc(st, v)
                self.call_func(st, m, lv, [('lv', tmp)])
                return
        self.assign_members(st, cls, lv, v)

    def call_body(self, st, f, this, argv, ctor_cls=None, env0=None):
        if self.depth > 24:
            raise Unsupported('call depth (recursion?) at %s' % f.sig)
        if sum(1 for x in self.call_stack if x is f) >= 3:
            raise Unsupported('recursion in %s' % f.sig)
        env = dict(env0 or {})
        for p, a in zip(f.params, argv):
            if a[0] == 'lv': env[p['id']] = a[1]
            else: env[p['id']] = self.alloc(st, a[1])
        frame = Frame(f, env, this, self)
        rt = f.ftype.split('(')[0].strip()
        frame.ret_type = cast.norm_type(rt)
        self.depth += 1
        self.call_stack.append(f)
        try:
            if ctor_cls is not None:
                inits = {}
                deleg = None
                for c in f.inits:
                    e = [z for z in c.get('inner', [])]
                    if e and e[0].get('kind') == 'CXXDefaultInitExpr': continue
                    if 'anyInit' in c:
                        if e: inits[c['anyInit']['name']] = e[0]
                    elif 'baseInit' in c:
                        if e: inits[cast.norm_type(c['baseInit'].get('desugaredQualType') or c['baseInit']['qualType'])] = e[0]
                    elif 'delegatingInit' in c:
                        deleg = e[0]
                if deleg is not None:
                    self.init_base(st, ctor_cls, this, deleg, frame)
                else:
                    self.init_members(st, ctor_cls, this, inits, frame)
            res = self.stmt(st, f.body, frame)
            return self.finish_call(st, frame, res)
        finally:
            self.depth -= 1
            self.call_stack.pop()

    def finish_call(self, st, frame, res):
        outs = list(frame.returns)
        if res is not None:
            outs.append((res, None))
        if not outs:
            raise Dead()
        if self.keep_at == self.depth: self.kept = [(s.fork(), v) for s, v in outs]
        # merge all outcomes
        cur, val = outs[-1]
        for s, v in reversed(outs[:-1]):
            c = self.distinguish(s, cur)
            cur, val = self.merge_out(c, s, v, cur, val)
        st.become(cur)
        if val is None:
            return ('val', None)
        return val

    def distinguish(self, s1, s2):
        n = 0
        while n < len(s1.pc) and n < len(s2.pc) and s1.pc[n] is s2.pc[n]:
            n += 1
        return and_(*s1.pc[n:])

    def merge_out(self, c, s1, v1, s2, v2):
        m = self.merge_states(c, s1, s2)
        if v1 is None and v2 is None: return m, None
        if v1 is None or v2 is None: return m, v1 or v2
        if v1[0] == 'lv' and v2[0] == 'lv':
            p = vmerge(c, Ptr(v1[1]), Ptr(v2[1]))
            if isinstance(p, Conflict): raise Unsupported('merge of references')
            return m, ('lv', p.loc)
        a = v1[1] if v1[0] == 'val' else self.load(s1, v1[1])
        b = v2[1] if v2[0] == 'val' else self.load(s2, v2[1])
        V._Hook.pc = m.pc
        return m, ('val', vmerge(c, a, b))

    def merge_states(self, c, a, b):
        if a is None: return b
        if b is None: return a
        m = State()
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] is b.pc[n]:
            n += 1
        m.pc = list(a.pc[:n])
        ea, eb = and_(*a.pc[n:]), and_(*b.pc[n:])
        V._Hook.pc = m.pc
        o = or_(ea, eb)
        if o is not TRUE:
            # common conjuncts
            m.assume(o)
        for k in a.store.keys() | b.store.keys():
            if k not in a.store: m.store[k] = b.store[k]
            elif k not in b.store: m.store[k] = a.store[k]
            else:
                x, y = a.store[k], b.store[k]
                m.store[k] = x if x is y else vmerge(c, x, y)
        if len(a.trace) == len(b.trace) and all(x is y for x, y in zip(a.trace, b.trace)):
            m.trace = a.trace
        else:
            n = 0
            while n < len(a.trace) and n < len(b.trace) and a.trace[n] is b.trace[n]: n += 1
            m.trace = a.trace[:n]
            if len(a.trace) == len(b.trace) and all(x[0] == y[0] for x, y in zip(a.trace[n:], b.trace[n:])):
                for x, y in zip(a.trace[n:], b.trace[n:]):
                    m.trace.append((x[0],) + tuple(vmerge(c, p, q) for p, q in zip(x[1:], y[1:])))
            else:
                m.trace.append(('branch', c, a.trace[n:], b.trace[n:]))
        return m

    # -------------------------------------------------------------- contracts at call sites
    def apply_contract(self, st, con, f, this, argv):
        self.used.add(con)
        self.hook(st)
        ctx = CallCtx(self, st, f, this, argv, mode='apply')
        con.spec(ctx)
        return ctx.finish_apply()

    # -------------------------------------------------------------- statements
    def stmt(self, st, n, fr):
        """returns continuing state or None"""
        k = n.get('kind')
        if k is None or k == 'NullStmt':
            return st
        m = getattr(self, 's_' + k, None)
        try:
            if m is not None:
                return m(st, n, fr)
            self.rv_any(st, n, fr)
            return st
        except Dead:
            return None

    def s_CompoundStmt(self, st, n, fr):
        for c in n.get('inner', []):
            st = self.stmt(st, c, fr)
            if st is None:
                return None
        return st

    def s_DeclStmt(self, st, n, fr):
        for v in n.get('inner', []):
            if v.get('kind') == 'VarDecl':
                self.vardecl(st, v, fr)
            elif v.get('kind') == 'DecompositionDecl':
                self.decomposition(st, v, fr)
        return st

    def decomposition(self, st, v, fr):
        init = [c for c in v.get('inner', []) if c.get('kind') != 'BindingDecl' and 'Comment' not in c.get('kind', '')]
        ref = cast.qt(v).rstrip().endswith('&')
        e = init[0]
        if ref: lv = self.lv(st, e, fr)
        else:
            x = self.rv(st, e, fr)
            k, t = self.tclass(cast.qt(v))
            if k == 'rec' and e.get('valueCategory') == 'lvalue': x = self.copy_value(st, t, x)
            lv = self.alloc(st, x)
        self.bind_parts(st, fr, v, lv)

    def bind_parts(self, st, fr, v, lv):
        """the names a structured binding introduces are the members of the object at lv, in order"""
        bs = [c for c in v.get('inner', []) if c.get('kind') == 'BindingDecl']
        if lv[1] and lv[1][-1][0] == 'key':
            for b, nm in zip(bs, ('first', 'second')): fr.env[b['id']] = self.ext.member(self, st, lv, nm)
            return
        x = self.peek(st, lv)
        if isinstance(x, Struct): names = [('f', nm) for nm in (x.f if x.cls == '#pair' else [f[0] for f in self.prog.all_fields(x.cls)])]
        elif isinstance(x, Vec) and x.elems is not None: names = [('i', I(i)) for i in range(len(x.elems))]
        else: raise Unsupported('structured binding of %r' % x)
        if len(names) != len(bs): raise Unsupported('structured binding of %r' % x)
        for b, nm in zip(bs, names): fr.env[b['id']] = (lv[0], lv[1] + (nm,))

    def vardecl(self, st, v, fr):
        t = cast.qt(v)
        k, x = self.tclass(t)
        init = [c for c in v.get('inner', []) if 'Comment' not in c.get('kind', '')]
        if v.get('storageClass') == 'static':
            raise Unsupported('static local')
        if k == 'ref':
            fr.env[v['id']] = self.lv(st, init[0], fr)
            return
        if not init:
            val = self.default(st, t)
        else:
            val = self.rv(st, init[0], fr)
            if k == 'vec' and isinstance(val, Vec) and cast.norm_type(t).endswith(']') and val.elems is not None:
                m = re.search(r'\[(\d+)\]$', cast.norm_type(t))
                if m:
                    e = list(val.elems)
                    while len(e) < int(m.group(1)): e.append(self.zero(st, x))
                    val = Vec(x, e)
        fr.env[v['id']] = self.alloc(st, val)

    def s_IfStmt(self, st, n, fr):
        inner = list(n.get('inner', []))
        if n.get('hasInit'):
            st = self.stmt(st, inner.pop(0), fr)
        if n.get('hasVar'):
            st = self.stmt(st, inner.pop(0), fr)
        if n.get('isConstexpr'):
            pass
        c = self.truth(st, inner[0], fr)
        th = inner[1]
        el = inner[2] if len(inner) > 2 else None
        return self.branch(st, c, lambda s: self.stmt(s, th, fr), (lambda s: self.stmt(s, el, fr)) if el else (lambda s: s))

    def branch(self, st, c, f1, f2):
        if c is not TRUE and c is not FALSE:
            if self.known(st, c): c = TRUE
            elif self.known(st, not_(c)): c = FALSE
        if c is TRUE: return f1(st)
        if c is FALSE: return f2(st)
        s1, s2 = st.fork(c), st.fork(not_(c))
        r1 = f1(s1)
        r2 = f2(s2)
        if r1 is None and r2 is None:
            return None
        st.become(self.merge_states(c, r1, r2))
        return st

    def s_ReturnStmt(self, st, n, fr):
        if n.get('inner'):
            e = n['inner'][0]
            rt = getattr(fr, 'ret_type', '')
            if rt.endswith('&'):
                val = ('lv', self.lv(st, e, fr))
            else:
                val = ('val', self.rv_any(st, e, fr))
                if isinstance(val[1], tuple) and val[1] and val[1][0] == 'lv':
                    val = ('val', self.load(st, val[1][1]))
            fr.returns.append((st, val))
        else:
            fr.returns.append((st, ('val', None)))
        return None

    def s_BreakStmt(self, st, n, fr):
        fr.loops[-1].breaks.append(st)
        return None

    def s_ContinueStmt(self, st, n, fr):
        for l in reversed(fr.loops):
            if not getattr(l, 'is_switch', False):
                l.continues.append(st)
                return None
        raise Unsupported('continue')

    def s_SwitchStmt(self, st, n, fr):
        inner = n['inner']
        v = self.rv(st, inner[0], fr)
        body = inner[1]
        # collect (labels, stmt list) in order
        items = []
        def add(s):
            labels = []
            while s.get('kind') in ('CaseStmt', 'DefaultStmt'):
                if s['kind'] == 'CaseStmt':
                    labels.append(self.rv(st, s['inner'][0], fr))
                    s = s['inner'][1]
                else:
                    labels.append(None)
                    s = s['inner'][0]
            items.append((labels, s))
        for s in body.get('inner', []): add(s)
        ctl = LoopCtl()
        ctl.is_switch = True
        fr.loops.append(ctl)
        conds = [eq(v, l) for ls, _ in items for l in ls if l is not None]
        cur = None          # state flowing through
        rest = not_(or_(*conds)) if conds else TRUE
        outs = []
        entry = st.fork()
        for labels, s in items:
            if labels:
                c = or_(*[rest if l is None else eq(v, l) for l in labels])
                if not self.known(entry, not_(c)):
                    s0 = entry.fork(c)
                    cur = s0 if cur is None else self.merge_states(c, s0, cur)
            if cur is not None:
                cur = self.stmt(cur, s, fr)
        fr.loops.pop()
        res = cur
        if not any(l is None for ls, _ in items for l in ls):
            s0 = entry.fork(rest)
            if not self.known(entry, not_(rest)):
                res = s0 if res is None else self.merge_states(self.distinguish(s0, res), s0, res)
        for b in ctl.breaks:
            res = b if res is None else self.merge_states(self.distinguish(b, res), b, res)
        if res is None: return None
        st.become(res)
        return st

    def s_CXXTryStmt(self, st, n, fr):
        raise Unsupported('try/catch')

    # loops are in loops.py
    # -------------------------------------------------------------- expressions
    def truth(self, st, n, fr):
        v = self.rv(st, n, fr)
        return self.tobool(v)

    def tobool(self, v):
        if isinstance(v, Ptr): return not_(v.null)
        if not isinstance(v, Term):
            raise Unsupported('condition on %r' % v)
        if v.sort == BOOL: return v
        return ne(v, const(0, v.sort))

    def rv_any(self, st, n, fr):
        """evaluate for effect; lvalue results returned as ('lv', lv)"""
        if n.get('valueCategory') in ('lvalue', 'xvalue'):
            k = n.get('kind')
            try:
                return ('lv', self.lv(st, n, fr))
            except OpaqueLV as e:
                return Opaque(e.what)
        return self.rv(st, n, fr)

    def rv(self, st, n, fr):
        k = n['kind']
        if n.get('valueCategory') in ('lvalue', 'xvalue') and k not in ('StringLiteral',):
            try:
                return self.load(st, self.lv(st, n, fr))
            except OpaqueLV as e:
                return Opaque(e.what)
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression %s' % k)
        return m(st, n, fr)

    def lv(self, st, n, fr):
        k = n['kind']
        m = getattr(self, 'l_' + k, None)
        if m is not None:
            return m(st, n, fr)
        if n.get('valueCategory') in ('lvalue', 'xvalue'):
            raise Unsupported('lvalue %s' % k)
        return self.alloc(st, self.rv(st, n, fr))

    def e_Py(self, st, n, fr): return n['fn'](self, st, fr)
    def s_Py(self, st, n, fr): return n['fn'](self, st, fr)

    # ---- literals
    def e_IntegerLiteral(self, st, n, fr): return I(int(n['value']))
    def e_CharacterLiteral(self, st, n, fr): return I(int(n['value']))
    def e_FloatingLiteral(self, st, n, fr): return R(Fraction(n['value']))
    def e_CXXBoolLiteralExpr(self, st, n, fr): return TRUE if n['value'] else FALSE
    def e_StringLiteral(self, st, n, fr): return strlit(unquote(n['value']))
    def l_StringLiteral(self, st, n, fr): return self.alloc(st, strlit(unquote(n['value'])))
    def e_CXXNullPtrLiteralExpr(self, st, n, fr): return Ptr(None)
    def e_GNUNullExpr(self, st, n, fr): return I(0)
    def e_ImplicitValueInitExpr(self, st, n, fr): return self.zero(st, cast.qt(n))
    def e_CXXScalarValueInitExpr(self, st, n, fr): return self.zero(st, cast.qt(n))
    def e_UnaryExprOrTypeTraitExpr(self, st, n, fr):
        t = n['argType'].get('qualType', '?') if n.get('argType') else cast.qt(n['inner'][0]) if n.get('inner') else '?'
        if n.get('name', 'sizeof') != 'sizeof': raise Unsupported(n['name'])
        return self.sizeof(cast.norm_type(t))

    def sizeof(self, t):
        m = re.match(r'(.*)\[(\d+)\]$', t)
        if m: return self.sizeof(m.group(1).strip()) * I(int(m.group(2)))
        if t in ('char', 'const char', 'unsigned char', 'signed char'): return I(1)
        return app('sizeof:' + t, [], INT)
    def e_ConstantExpr(self, st, n, fr): return self.rv(st, n['inner'][0], fr)
    def e_SubstNonTypeTemplateParmExpr(self, st, n, fr): return self.rv(st, [c for c in n['inner'] if c.get('kind', '').endswith(('Expr', 'Literal'))][-1], fr)
    def e_ParenExpr(self, st, n, fr): return self.rv(st, n['inner'][0], fr)
    def l_ParenExpr(self, st, n, fr): return self.lv(st, n['inner'][0], fr)
    def e_ExprWithCleanups(self, st, n, fr): return self.rv_any(st, n['inner'][0], fr)
    def l_ExprWithCleanups(self, st, n, fr): return self.lv(st, n['inner'][0], fr)
    def e_CXXBindTemporaryExpr(self, st, n, fr): return self.rv(st, n['inner'][0], fr)
    def l_CXXBindTemporaryExpr(self, st, n, fr): return self.lv(st, n['inner'][0], fr)
    def l_MaterializeTemporaryExpr(self, st, n, fr): return self.alloc(st, self.rv(st, n['inner'][0], fr))
    def e_MaterializeTemporaryExpr(self, st, n, fr): return self.rv(st, n['inner'][0], fr)
    def e_CXXRewrittenBinaryOperator(self, st, n, fr): return self.rv(st, n['inner'][0], fr)
    def e_OpaqueValueExpr(self, st, n, fr): return self.rv(st, n['inner'][0], fr)

    def l_CXXDefaultArgExpr(self, st, n, fr): return self.alloc(st, Opaque('default-arg'))
    def e_CXXDefaultArgExpr(self, st, n, fr): return Opaque('default-arg')

    def e_CXXThisExpr(self, st, n, fr):
        if fr.this is None: raise Unsupported('this')
        return Ptr(fr.this)

    def e_CXXThrowExpr(self, st, n, fr):
        t = 'rethrow'
        if n.get('inner'):
            e = n['inner'][0]
            t = cast.norm_type(cast.qt(e))
        self.throws.append(Throw(st.fork(), t, fr.func.sig if fr.func else '?'))
        raise Dead()

    def e_LambdaExpr(self, st, n, fr):
        call = None
        rec = None
        for c in n.get('inner', []):
            if c.get('kind') == 'CXXRecordDecl': rec = c
        for c in rec.get('inner', []):
            if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()':
                call = c
            if c.get('kind') == 'FunctionTemplateDecl':
                for d in c.get('inner', []):
                    if d.get('kind') == 'CXXMethodDecl': call = d
        # captures by copy: snapshot scalars
        env = fr.env
        byref = True
        caps = [c for c in n.get('inner', []) if c.get('kind') not in ('CXXRecordDecl', 'CompoundStmt')]
        fields = [c for c in rec.get('inner', []) if c.get('kind') == 'FieldDecl']
        env2 = env
        names = []
        copied = {}
        for fld, cap in zip(fields, caps):
            ft = cast.qt(fld)
            if not cast.norm_type(ft).endswith('&'):
                e = cap
                while e.get('kind') in ('ImplicitCastExpr', 'ParenListExpr', 'ParenExpr') and e.get('inner'):
                    e = e['inner'][0]
                if e.get('kind') == 'CXXConstructExpr' and e.get('inner'):
                    e2 = e['inner'][0]
                    while e2.get('kind') == 'ImplicitCastExpr': e2 = e2['inner'][0]
                    e = e2
                if e.get('kind') == 'DeclRefExpr':
                    did = e['referencedDecl']['id']
                    if did in env:
                        copied[did] = self.alloc(st, self.load(st, env[did]))
        if copied:
            env2 = ChainEnv(copied, env)
        return Closure(call, env2, fr.this, self.prog)

    def l_LambdaExpr(self, st, n, fr): return self.alloc(st, self.e_LambdaExpr(st, n, fr))

    def call_closure(self, st, cl, args, fr):
        f = cast.Func(cl.node, 'lambda', None, None)
        argv = self.bind_args(st, f, args)
        env = ChainEnv({}, cl.env)
        # ret type
        self_ft = cl.node.get('type', {}).get('qualType', '')
        for p, a in zip(f.params, argv):
            if a[0] == 'lv': env[p['id']] = a[1]
            else: env[p['id']] = self.alloc(st, a[1])
        frame = Frame(f, env, cl.this, self)
        m = re.search(r'->\s*(.*)$', self_ft)
        frame.ret_type = cast.norm_type(m.group(1)) if m else cast.norm_type(self_ft.split('(')[0])
        self.depth += 1
        self.call_stack.append(f)
        try:
            if self.depth > 24: raise Unsupported('call depth')
            res = self.stmt(st, f.body, frame)
            return self.finish_call(st, frame, res)
        finally:
            self.depth -= 1
            self.call_stack.pop()

    # ---- references to declarations
    def l_DeclRefExpr(self, st, n, fr):
        d = n['referencedDecl']
        if d['id'] in fr.env:
            return fr.env[d['id']]
        if d['id'] in self.globals:
            return self.globals[d['id']]
        if d['kind'] in ('VarDecl', 'BindingDecl'):
            g = self.prog.globals.get(d['id'])
            name = d.get('name')
            if name in ('cout', 'cerr', 'endl'):
                raise OpaqueLV('stream')
            h = self.ext.global_var(self, st, name, cast.qt(n))
            if h is not None:
                lv = self.alloc(st, h)
                return lv
            if g is not None:
                init = [c for c in g.get('inner', []) if 'Comment' not in c.get('kind', '')]
                if init:
                    return self.alloc(st, self.rv(st, init[0], fr))
            raise OpaqueLV(name)
        if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return self.alloc(st, FnRef(d))
        raise Unsupported('reference to %s %s' % (d['kind'], d.get('name')))

    def e_DeclRefExpr(self, st, n, fr):
        d = n['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            if d['id'] in self.prog.enums: return I(self.prog.enums[d['id']])
            return app('enum:' + d['name'], [], INT)
        if d['kind'] == 'NonTypeTemplateParmDecl':
            raise Unsupported('template parameter')
        return self.load(st, self.l_DeclRefExpr(st, n, fr))

    def l_MemberExpr(self, st, n, fr):
        base = n['inner'][0]
        if n.get('isArrow'):
            p = self.rv(st, base, fr)
            lv = self.deref(st, p)
        else:
            lv = self.lv(st, base, fr)
        name = n.get('name')
        v = self.peek(st, lv)
        if isinstance(v, Struct):
            if name not in v.f:
                h = self.ext.member(self, st, lv, name)
                if h is not None: return h
                raise Unsupported('field %s of %s' % (name, v.cls))
            f = v.f[name]
            lv2 = (lv[0], lv[1] + (('f', name),))
            if self.is_ref_field(v.cls, name) and isinstance(f, Ptr):
                return f.loc
            return lv2
        h = self.ext.member(self, st, lv, name)
        if h is not None: return h
        raise Unsupported('member %s of %r' % (name, v))

    def is_ref_field(self, cls, name):
        for n, t, i, o in self.prog.all_fields(cls) or []:
            if n == name:
                return cast.norm_type(t).endswith('&')
        return False

    def peek(self, st, lv):
        cell, path = lv
        self.hook(st)
        v = st.store[cell]
        for k, x in path:
            v = vget(v, ((k, x),))
            if isinstance(v, Conflict): v = self.unconflict(st, v)
        return v

    def e_MemberExpr(self, st, n, fr):
        # enum constants or prvalue members
        return self.load(st, self.l_MemberExpr(st, n, fr))

    def deref(self, st, p):
        if hasattr(p, 'text'): return self.alloc(st, CHARAT(self, st, p.text, p.i))
        if isinstance(p, Closure) or isinstance(p, FnRef):
            raise Unsupported('deref of function')
        if not isinstance(p, Ptr):
            raise Unsupported('dereference of %r' % (p,))
        if p.loc is None:
            self.oblige(st, 'no null dereference', FALSE)
            raise Dead()
        if p.null is not FALSE:
            self.oblige(st, 'no null dereference', not_(p.null))
        return p.loc

    # ---- casts
    def cast_value(self, st, n, v, fr):
        ck = n.get('castKind')
        t = cast.qt(n)
        if ck in ('NoOp', 'LValueToRValue', 'FunctionToPointerDecay', 'ConstructorConversion', 'UserDefinedConversion',
                  'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'BuiltinFnToFnPtr', 'Dynamic'):
            return v
        if ck == 'IntegralCast':
            return self.int_cast(st, v, t, n)
        if ck == 'IntegralToBoolean' or ck == 'FloatingToBoolean' or ck == 'PointerToBoolean':
            return self.tobool(v)
        if ck == 'BooleanToSignedIntegral': return v
        if ck == 'IntegralToFloating':
            if isinstance(v, Term) and v.sort == BOOL: return ite(v, R(1), R(0))
            return toreal(v)
        if ck == 'FloatingCast': return v
        if ck == 'FloatingToIntegral':
            c = cval(v)
            if c is not None: return I(int(c))
            return trunc(v)
        if ck == 'NullToPointer': return Ptr(None)
        if ck == 'ToVoid': return None
        if ck == 'BitCast': return v
        if ck == 'IntegralToPointer': return v
        if ck == 'PointerToIntegral': return v
        raise Unsupported('cast %s' % ck)

    def int_cast(self, st, v, t, n):
        if not isinstance(v, Term):
            return v
        if v.sort == BOOL:
            return ite(v, I(1), I(0))
        tn = cast.norm_type(t)
        if tn not in INTS:
            return v
        bits, signed = INTS[tn]
        src = cast.norm_type(cast.qt(n['inner'][0]))
        sb, ss = INTS.get(src, (32, True))
        if not signed:
            if not ss and sb <= bits:
                return v
            c = cval(v)
            if c is not None:
                return I(int(c) % (1 << bits))
            nn = le(I(0), v)
            if not ss: return v
            if self.quiet and False: return v
            if self.known(st, nn): return v
            if self.known(st, lt(v, I(0))): return wrapneg(v, bits)
            return ite(nn, v, wrapneg(v, bits))
        else:
            if not ss and sb >= bits:
                return unwrap(v, sb)
            return v

    def e_ImplicitCastExpr(self, st, n, fr):
        sub = n['inner'][0]
        ck = n.get('castKind')
        if ck == 'FunctionToPointerDecay':
            e = sub
            while e.get('kind') in ('ParenExpr', 'ImplicitCastExpr'): e = e['inner'][0]
            if e.get('kind') == 'DeclRefExpr':
                return FnRef(e['referencedDecl'])
            v = self.rv(st, sub, fr)
            return v
        if ck == 'ArrayToPointerDecay':
            if sub.get('kind') == 'StringLiteral':
                return strlit(unquote(sub['value']))
            lv = self.lv(st, sub, fr)
            v = self.peek(st, lv)
            if isinstance(v, Term): return v
            return Ptr((lv[0], lv[1] + (('i', I(0)),)))
        if ck == 'LValueToRValue':
            return self.load(st, self.lv(st, sub, fr))
        if ck in ('UserDefinedConversion', 'ConstructorConversion'):
            return self.rv(st, sub, fr)
        v = self.rv(st, sub, fr)
        return self.cast_value(st, n, v, fr)

    e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CXXReinterpretCastExpr = e_CXXConstCastExpr = e_CXXDynamicCastExpr = e_ImplicitCastExpr

    def l_ImplicitCastExpr(self, st, n, fr):
        ck = n.get('castKind')
        if ck == 'LValueToRValue':
            return self.alloc(st, self.e_ImplicitCastExpr(st, n, fr))
        return self.lv(st, n['inner'][0], fr)
    l_CXXStaticCastExpr = l_CStyleCastExpr = l_CXXFunctionalCastExpr = l_CXXConstCastExpr = l_CXXReinterpretCastExpr = l_ImplicitCastExpr

    # ---- operators
    def e_UnaryOperator(self, st, n, fr):
        op = n['opcode']
        sub = n['inner'][0]
        if op in ('++', '--'):
            lv = self.lv(st, sub, fr)
            old = self.load(st, lv)
            new = self.step(st, old, 1 if op == '++' else -1)
            self.put(st, lv, new)
            return old if n.get('isPostfix') else new
        if op == '&':
            e = sub
            while e.get('kind') == 'ParenExpr': e = e['inner'][0]
            if e.get('kind') == 'DeclRefExpr' and e['referencedDecl']['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
                return FnRef(e['referencedDecl'])
            try: return Ptr(self.lv(st, sub, fr))
            except OpaqueLV as e: return Opaque('&' + str(e.what))
        v = self.rv(st, sub, fr)
        if op == '-': return neg(v if v.sort != BOOL else lift(v, INT))
        if op == '+': return v
        if op == '!': return not_(self.tobool(v))
        if op == '~': raise Unsupported('bitwise not')
        if op == '*': return self.load(st, self.deref(st, v))
        raise Unsupported('unary %s' % op)

    def l_UnaryOperator(self, st, n, fr):
        op = n['opcode']
        sub = n['inner'][0]
        if op == '*':
            return self.deref(st, self.rv(st, sub, fr))
        if op in ('++', '--'):
            lv = self.lv(st, sub, fr)
            self.put(st, lv, self.step(st, self.load(st, lv), 1 if op == '++' else -1))
            return lv
        raise Unsupported('lvalue unary %s' % op)

    def step(self, st, v, d):
        if isinstance(v, Term): return v + d
        if isinstance(v, Ptr): return self.ptr_add(st, v, I(d))
        raise Unsupported('++ on %r' % (v,))

    def ptr_add(self, st, p, d):
        if not isinstance(p, Ptr) or p.loc is None:
            raise Unsupported('arithmetic on null pointer')
        cell, path = p.loc
        if path and path[-1][0] == 'i':
            return Ptr((cell, path[:-1] + (('i', path[-1][1] + d),)), p.null)
        if cval(d) == 0: return p
        return Ptr((cell, path + (('i', d),)), p.null)

    def ptr_idx(self, p):
        cell, path = p.loc
        if path and path[-1][0] == 'i': return (cell, path[:-1]), path[-1][1]
        return (cell, path), I(0)

    def binop(self, st, op, a, b, t, n=None):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptr_op(st, op, a, b)
        r = TEXTPTR(self, st, op, a, b)
        if r is not None: return r
        if not isinstance(a, Term) or not isinstance(b, Term):
            raise Unsupported('operator %s on %r and %r' % (op, a, b))
        if op in ('&&', '||'):
            return (and_ if op == '&&' else or_)(self.tobool(a), self.tobool(b))
        if op in ('==', '!='):
            if a.sort == BOOL and b.sort != BOOL: a = lift(a, b.sort)
            if b.sort == BOOL and a.sort != BOOL: b = lift(b, a.sort)
            e = eq(a, b)
            return e if op == '==' else not_(e)
        if a.sort == BOOL: a = lift(a, INT)
        if b.sort == BOOL: b = lift(b, INT)
        if a.sort not in (INT, REAL) or b.sort not in (INT, REAL):
            raise Unsupported('operator %s on %s' % (op, a.sort))
        if op == '<': return lt(a, b)
        if op == '<=': return le(a, b)
        if op == '>': return lt(b, a)
        if op == '>=': return le(b, a)
        tk, tn = self.tclass(t)
        if op == '+':
            if self.wide and tk == 'int' and not INTS[tn][1] and INTS[tn][0] == 64:
                c = lt(a + b, I(2 ** 64))
                if self.known(st, c): return a + b
                if self.known(st, not_(c)): return a + b - 2 ** 64
                return ite(c, a + b, a + b - 2 ** 64)
            return a + b
        if op == '*': return a * b
        if op == '-':
            if tk == 'int' and not INTS[tn][1]:
                c = le(b, a)
                if self.known(st, c): return a - b
                w = 1 << INTS[tn][0]
                if self.known(st, lt(a, b)): return wrapneg(a - b, INTS[tn][0])
                return ite(c, a - b, wrapneg(a - b, INTS[tn][0]))
            return a - b
        if op == '/':
            if a.sort == REAL or b.sort == REAL:
                return rdiv(a, b)
            self.oblige(st, 'no division by zero', ne(b, I(0)))
            return idiv(a, b)
        if op == '%':
            self.oblige(st, 'no division by zero', ne(b, I(0)))
            return imod(a, b)
        if op == '<<':
            c = cval(b)
            if c is not None: return a * (1 << int(c))
            return a * app('pow2', [b], INT)
        if op == '>>':
            c = cval(b)
            if c is not None: return idiv(a, I(1 << int(c)))
            return idiv(a, app('pow2', [b], INT))
        if op in ('&', '|', '^'):
            ca, cb = cval(a), cval(b)
            if ca is not None and cb is not None:
                ia, ib = int(ca), int(cb)
                return I({'&': ia & ib, '|': ia | ib, '^': ia ^ ib}[op])
            if op == '&' and cb == 1: return imod(a, I(2))
            return app('bit' + op, [a, b], INT)
        raise Unsupported('operator %s' % op)

    def ptr_op(self, st, op, a, b):
        if op in ('==', '!='):
            def isnull(x): return (isinstance(x, Ptr) and x.loc is None) or (isinstance(x, Term) and cval(x) == 0)
            if hasattr(a, 'maplv') and hasattr(b, 'maplv') and a.maplv == b.maplv:
                r = not_(b.valid) if a.key is None else not_(a.valid) if b.key is None else or_(and_(not_(a.valid), not_(b.valid)), and_(a.valid, b.valid, eq(a.key, b.key)))
            elif isnull(a) and isnull(b): r = TRUE
            elif isnull(a) or isnull(b):
                p = b if isnull(a) else a
                if not isinstance(p, Ptr): raise Unsupported('pointer compare')
                r = p.null
            else:
                (la, ia), (lb, ib) = self.ptr_idx(a), self.ptr_idx(b)
                if la[0] == lb[0] and len(la[1]) == len(lb[1]) and all(x[0] == y[0] and x[1] == y[1] for x, y in zip(la[1], lb[1])):
                    r = and_(eq(ia, ib), eq(a.null, b.null))
                elif la[0] != lb[0]:
                    r = and_(a.null, b.null)
                else:
                    raise Unsupported('pointer comparison')
            return r if op == '==' else not_(r)
        if op in ('<', '<=', '>', '>=', '-') and isinstance(a, Ptr) and isinstance(b, Ptr):
            (la, ia), (lb, ib) = self.ptr_idx(a), self.ptr_idx(b)
            if la[0] != lb[0]: raise Unsupported('pointer comparison across objects')
            return {'<': lt(ia, ib), '<=': le(ia, ib), '>': lt(ib, ia), '>=': le(ib, ia), '-': ia - ib}[op]
        if op == '+':
            if isinstance(a, Ptr): return self.ptr_add(st, a, b)
            return self.ptr_add(st, b, a)
        if op == '-': return self.ptr_add(st, a, -b)
        raise Unsupported('pointer operator %s' % op)

    def e_BinaryOperator(self, st, n, fr):
        op = n['opcode']
        l, r = n['inner'][0], n['inner'][1]
        if op == '=':
            lv = self.l_BinaryOperator(st, n, fr)
            return self.load(st, lv)
        if op == ',':
            self.rv_any(st, l, fr)
            return self.rv(st, r, fr)
        if op in ('&&', '||'):
            a = self.truth(st, l, fr)
            if op == '&&' and a is FALSE: return FALSE
            if op == '||' and a is TRUE: return TRUE
            c = a if op == '&&' else not_(a)
            s2 = st.fork(c)
            npc = len(s2.pc)
            try:
                b = self.truth(s2, r, fr)
            except Dead:
                st.assume(not_(c))
                return a
            if not self.known(st, c):
                if self.changed(st, s2):
                    st.become(self.merge_states(c, s2, st.fork(not_(c))))
                return and_(a, b) if op == '&&' else or_(a, b)
            st.become(s2)
            return and_(a, b) if op == '&&' else or_(a, b)
        a = self.rv(st, l, fr)
        b = self.rv(st, r, fr)
        return self.binop(st, op, a, b, cast.qt(n), n)

    def changed(self, a, b):
        return any(k in a.store and a.store[k] is not v for k, v in b.store.items()) or len(a.trace) != len(b.trace)

    def l_BinaryOperator(self, st, n, fr):
        op = n['opcode']
        if op == ',':
            self.rv_any(st, n['inner'][0], fr)
            return self.lv(st, n['inner'][1], fr)
        if op != '=': raise Unsupported('lvalue %s' % op)
        v = self.rv(st, n['inner'][1], fr)
        lv = self.lv(st, n['inner'][0], fr)
        if isinstance(v, Struct):
            v = v
        self.put(st, lv, v)
        return lv

    def l_CompoundAssignOperator(self, st, n, fr):
        op = n['opcode'][:-1]
        b = self.rv(st, n['inner'][1], fr)
        lv = self.lv(st, n['inner'][0], fr)
        a = self.load(st, lv)
        ct = n.get('computeResultType', {}).get('desugaredQualType') or n.get('computeResultType', {}).get('qualType') or cast.qt(n)
        if isinstance(a, Term) and isinstance(b, Term) and a.sort == INT and b.sort == REAL:
            r = trunc(self.binop(st, op, toreal(a), b, 'double'))
        else:
            r = self.binop(st, op, a, b, ct)
            tn = cast.norm_type(cast.qt(n))
            cn = cast.norm_type(ct)
            if isinstance(r, Term) and tn in INTS and cn in INTS and INTS[tn][1] and not INTS[cn][1]:
                r = unwrap(r, INTS[cn][0])
        self.put(st, lv, r)
        return lv

    def e_CompoundAssignOperator(self, st, n, fr):
        return self.load(st, self.l_CompoundAssignOperator(st, n, fr))

    def e_ConditionalOperator(self, st, n, fr):
        c = self.truth(st, n['inner'][0], fr)
        if c is not TRUE and c is not FALSE:
            if self.known(st, c): c = TRUE
            elif self.known(st, not_(c)): c = FALSE
        if c is TRUE: return self.rv(st, n['inner'][1], fr)
        if c is FALSE: return self.rv(st, n['inner'][2], fr)
        s1, s2 = st.fork(c), st.fork(not_(c))
        try:
            a = self.rv(s1, n['inner'][1], fr)
        except Dead:
            b = self.rv(s2, n['inner'][2], fr)
            st.become(s2)
            return b
        try:
            b = self.rv(s2, n['inner'][2], fr)
        except Dead:
            st.become(s1)
            return a
        st.become(self.merge_states(c, s1, s2))
        return vmerge(c, a, b)

    def l_ConditionalOperator(self, st, n, fr):
        c = self.truth(st, n['inner'][0], fr)
        a = self.lv(st, n['inner'][1], fr)
        b = self.lv(st, n['inner'][2], fr)
        p = vmerge(c, Ptr(a), Ptr(b))
        if isinstance(p, Conflict):
            if self.known(st, c): return a
            if self.known(st, not_(c)): return b
            raise Unsupported('conditional reference')
        return p.loc

    def l_ArraySubscriptExpr(self, st, n, fr):
        a = self.rv(st, n['inner'][0], fr)
        b = self.rv(st, n['inner'][1], fr)
        if isinstance(b, Ptr): a, b = b, a
        return self.deref(st, self.ptr_add(st, a, b))

    def e_InitListExpr(self, st, n, fr):
        t = cast.qt(n)
        k, x = self.tclass(t)
        vals = n.get('inner', [])
        if k == 'vec':
            e = [self.rv(st, c, fr) for c in vals]
            m = re.search(r'\[(\d+)\]$', cast.norm_type(t))
            if m:
                while len(e) < int(m.group(1)): e.append(self.zero(st, x))
            return Vec(x, e)
        if k == 'rec':
            fs = {}
            fields = self.prog.all_fields(x)
            for (nm, ft, init, o), c in zip(fields, vals):
                fs[nm] = self.rv(st, c, fr)
            return Struct(x, fs)
        if k in ('int', 'real', 'bool', 'ptr', 'str'):
            if not vals: return self.zero(st, t)
            return self.rv(st, vals[0], fr)
        if not vals:
            return self.default(st, t)
        raise Unsupported('initialiser list of %s' % t)

    def e_CXXStdInitializerListExpr(self, st, n, fr):
        v = self.rv(st, n['inner'][0], fr)
        return v

    def e_CXXDefaultInitExpr(self, st, n, fr):
        raise Unsupported('default member initialiser')

    def e_CXXNewExpr(self, st, n, fr):
        t = cast.norm_type(cast.qt(n))
        el = t[:-1].strip()
        if n.get('isArray'):
            cnt = self.rv(st, n['inner'][0], fr)
            lv = self.alloc(st, Vec(el, None, cnt, Lam.fn(lambda k: app('uninit', [k], REAL))))
            return Ptr((lv[0], (('i', I(0)),)))
        inits = [c for c in n.get('inner', []) if 'kind' in c]
        v = self.rv(st, inits[-1], fr) if inits else self.default(st, el)
        return Ptr(self.alloc(st, v))

    def e_CXXDeleteExpr(self, st, n, fr): return None

    def e_CXXConstructExpr(self, st, n, fr):
        t = cast.qt(n)
        k, x = self.tclass(t)
        args = [c for c in n.get('inner', []) if c.get('kind')]
        ct = n.get('ctorType', {}).get('qualType')
        if k == 'rec':
            # elided / copy construction of temporaries
            if len(args) == 1:
                a = args[0]
                src = cast.norm_type(cast.qt(a))
                if src == x and a.get('valueCategory') == 'prvalue':
                    return self.rv(st, a, fr)
                if src == x and a.get('valueCategory') == 'xvalue' and a.get('kind') == 'MaterializeTemporaryExpr':
                    return self.rv(st, a, fr)
                if src == x:
                    d = self.has_user_copy(x)
                    if d is None:
                        return self.copy_members(st, x, self.rv(st, a, fr))
            if len(args) == 1 and self.derives(cast.norm_type(cast.qt(args[0])), x):
                v = self.rv(st, args[0], fr)
                keep = {f[0] for f in self.prog.all_fields(x)}
                return Struct(x, {n2: y for n2, y in v.f.items() if n2 in keep})
            return self.construct(st, x, [('node', a, fr) for a in args], n, ctor_type=ct)
        return self.ext.construct(self, st, t, k, x, args, fr, n)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def derives(self, d, b):
        if d == b: return False
        r = self.prog.records.get(d)
        if not r: return False
        return b in r.bases or any(self.derives(x, b) for x in r.bases)

    # ---- calls
    def callee(self, n):
        e = n
        while e.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
            e = e['inner'][0]
        return e

    def find_func(self, did):
        f = self.prog.funcs.get(did)
        if f is None: return None
        return f

    def result(self, st, r, n):
        return r

    def do_call(self, st, n, fr):
        k = n['kind']
        inner = n['inner']
        if k == 'CXXMemberCallExpr':
            m = self.callee(inner[0])
            args = inner[1:]
            if m['kind'] != 'MemberExpr':
                raise Unsupported('member call through pointer')
            did = m.get('referencedMemberDecl')
            f = self.find_func(did)
            base = m['inner'][0]
            if f is not None:
                this = self.deref(st, self.rv(st, base, fr)) if m.get('isArrow') else self.lv(st, base, fr)
                f = self.devirt(st, f, this, base)
                return self.call_func(st, f, this, [('node', a, fr) for a in args])
            if m.get('isArrow'):
                p = self.rv(st, base, fr)
                this = self.deref(st, p) if isinstance(p, Ptr) else self.alloc(st, p)
            else:
                try:
                    this = self.lv(st, base, fr)
                except OpaqueLV as e:
                    return self.ext.opaque_method(self, st, e.what, m.get('name'), args, fr, n)
            return self.ext.method(self, st, this, m.get('name'), args, fr, n, cast.norm_type(cast.qt(base)))
        if k == 'CXXOperatorCallExpr':
            c = self.callee(inner[0])
            d = c.get('referencedDecl', {})
            f = self.find_func(d.get('id'))
            args = inner[1:]
            if f is not None:
                if f.cls is not None and f.kind == 'CXXMethodDecl':
                    this = self.lv(st, args[0], fr)
                    return self.call_func(st, f, this, [('node', a, fr) for a in args[1:]])
                return self.call_func(st, f, None, [('node', a, fr) for a in args])
            if d.get('name') == 'operator()' :
                fv_ = self.rv(st, args[0], fr)
                return self.call_value(st, fv_, args[1:], fr, n)
            return self.ext.operator(self, st, d.get('name'), args, fr, n, d)
        # plain call
        c = self.callee(inner[0])
        args = inner[1:]
        if c['kind'] == 'DeclRefExpr':
            d = c['referencedDecl']
            f = self.find_func(d['id'])
            if f is not None and f.body is None and self.prog.definition(f.id) is None and self.ext.models(d.get('name')): f = None
            if f is not None:
                return self.call_func(st, f, None, [('node', a, fr) for a in args])
            if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
                return self.ext.function(self, st, d.get('name'), args, fr, n, d)
        v = self.rv(st, c, fr)
        return self.call_value(st, v, args, fr, n)

    def call_value(self, st, v, args, fr, n):
        if isinstance(v, Closure):
            return self.call_closure(st, v, [('node', a, fr) for a in args], fr)
        if isinstance(v, FnRef):
            f = self.find_func(v.d['id'])
            if f is not None:
                return self.call_func(st, f, None, [('node', a, fr) for a in args])
            return self.ext.function(self, st, v.d.get('name'), args, fr, n, v.d)
        if isinstance(v, FnVal):
            return v.call(self, st, args, fr)
        raise Unsupported('call of %r' % (v,))

    def devirt(self, st, f, this, base):
        v = self.peek(st, this)
        if isinstance(v, Struct) and v.cls != f.cls:
            # most derived override
            r = self.prog.records.get(v.cls)
            while r is not None:
                for m in r.methods:
                    if m.name == f.name and len(m.params) == len(f.params) and m.ptypes == f.ptypes:
                        return m
                r = self.prog.records.get(r.bases[0]) if r.bases else None
        return f

    def e_CallExpr(self, st, n, fr):
        k, v = self.do_call(st, n, fr)
        if k == 'lv': return self.load(st, v)
        return v
    e_CXXMemberCallExpr = e_CXXOperatorCallExpr = e_CallExpr

    def l_CallExpr(self, st, n, fr):
        k, v = self.do_call(st, n, fr)
        if k == 'lv': return v
        if isinstance(v, Opaque): raise OpaqueLV(v.what)
        return self.alloc(st, v)
    l_CXXMemberCallExpr = l_CXXOperatorCallExpr = l_CallExpr


class ChainEnv(dict):
    """closure environment: own bindings on top of the (shared) enclosing frame's"""

    def __init__(self, own, parent):
        super().__init__(own)
        self.parent = parent

    def __contains__(self, k):
        return dict.__contains__(self, k) or k in self.parent

    def __getitem__(self, k):
        if dict.__contains__(self, k): return dict.__getitem__(self, k)
        return self.parent[k]


class FnRef:
    def __init__(self, d): self.d = d


class OpaqueLV(Exception):
    def __init__(self, what): self.what = what


def strlit(s): return mk('strlit', (s,), 'Str')


def unquote(s):
    try:
        import ast
        return ast.literal_eval(s)
    except Exception:
        return s.strip('"')


def trunc(v):
    """real -> int truncation; exact when v is the real image of an int polynomial"""
    d = {}
    ok = True
    for m, c in monos(v).items():
        if c.denominator != 1: ok = False; break
        mm = ()
        for a, e in m:
            if a.op != 'toreal' or e < 0: ok = False; break
            mm = mmul(mm, ((a.args[0], e),))
        if not ok: break
        d[mm] = d.get(mm, 0) + c
    if ok: return from_monos(d, INT)
    ms = dict(monos(v))
    k = ms.pop((), 0)
    if k > 0 and k.denominator == 1 and len(ms) == 1:
        (m, c), = ms.items()
        # log2 of a size is not negative
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app' and m[0][0].args[0] == 'math.log2':
            return app('trunc', [from_monos(ms, REAL)], INT) + I(int(k))
    return app('trunc', [v], INT)


def wrapneg(v, bits):
    """unsigned image of a negative value: v + 2^bits, at least 2^(bits-1)"""
    c = cval(v)
    if c is not None: return I(int(c) + (1 << bits))
    return app('wrap%d' % bits, [v], INT)


def _rule(bits):
    def r(args, sort):
        c = cval(args[0])
        if c is not None: return I(int(c) + (1 << bits))
    return r


for _b in (8, 16, 32, 64): T.app_rules['wrap%d' % _b] = _rule(_b)


def unwrap(v, bits):
    """two's complement reading of an unsigned value known to be small in magnitude"""
    w = 1 << bits
    c = cval(v)
    if c is not None:
        return I(int(c) - w if c >= w // 2 else int(c))
    if v.op == 'ite':
        return ite(v.args[0], unwrap(v.args[1], bits), unwrap(v.args[2], bits))
    if v.op == 'app' and v.args[0] == 'wrap%d' % bits: return v.args[1]
    if v.op == 'poly':
        k = dict(v.args).get((), 0)
        if k >= w // 2: return v - w
        for m, cc in v.args:
            if len(m) == 1 and m[0][1] == 1 and cc == 1 and m[0][0].op == 'app' and m[0][0].args[0] == 'wrap%d' % bits:
                return v - m[0][0] + m[0][0].args[1]
        # distribute over a single ite summand
        for m, cc in v.args:
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'ite' and cc == 1:
                rest = sub(v, m[0][0])
                x = m[0][0]
                return ite(x.args[0], unwrap(x.args[1] + rest, bits), unwrap(x.args[2] + rest, bits))
    return v
