"""Rule for a loop that only appends: every pass adds one piece to some texts and one element to some sequences.

The rule runs the body once for an arbitrary position #k (with unknown texts and unreadable sequences in place of those appended
to) and obliges nothing else to change; by induction over the passes each text then is its former value followed by
concat(n, piece(#k)), each sequence its former elements followed by element(#k) for #k = 0 .. n-1."""
from terms import *
import terms as T
from values import *
import values as V
import contract, engine, externs
from externs import strcat, strparts, strjoin, strlen
from engine import Dead, strlit


class Accum(Vec):
    """a sequence of which only the elements added are known"""
    __slots__ = ()
    def __init__(self, et, elems=None, len=None, lam=None):
        if elems is None: raise Unsupported('the sequence a loop appends to is used otherwise')
        self.et, self.elems, self.lam = et, elems, None
    @property
    def len(self):
        raise Unsupported('the sequence a loop appends to is read')
    def get(self, i): raise Unsupported('the sequence a loop appends to is read')
    def put(self, i, v): raise Unsupported('the sequence a loop appends to is written')
    def tolam(self): raise Unsupported('the sequence a loop appends to is read')
    def generic(self): raise Unsupported('the sequence a loop appends to is read')


def concat(n, piece, k):
    if cval(n) == 0 or piece.op == 'strlit' and piece.args[0] == '': return strlit('')
    return app('concat', [n, T.subst(piece, {k: K0}) if k is not K0 else piece], 'Str')


K0 = var('#k')


def rotate(v):
    """the text without its last character; x concat(.. + x) is concat(x + ..) x"""
    ps = strparts(v)
    if not ps: return None
    p = ps[-1]
    if p.op == 'strlit': return strjoin(ps[:-1] + [strlit(p.args[0][:-1])])
    if p.op == 'app' and p.args[0] == 'concat' and len(ps) > 1 and ps[-2].op == 'strlit':
        n, piece = p.args[1], strparts(p.args[2])
        if piece and piece[-1].op == 'strlit':
            c, front = piece[-1].args[0][-1], ps[-2].args[0]
            if front[-1] == c:
                new = strjoin([strlit(c)] + piece[:-1] + [strlit(piece[-1].args[0][:-1])])
                return strjoin(ps[:-2] + [strlit(front[:-1]), app('concat', [n, new], 'Str')])
    return None


def _leaves(v, path=()):
    if isinstance(v, Struct):
        for n in v.f: yield from _leaves(v.f[n], path + (('f', n),))
    else: yield path, v


def added(v, acc):
    """what v has behind acc"""
    if v.op == 'ite':
        return ite(v.args[0], added(v.args[1], acc), added(v.args[2], acc))
    ps = strparts(v)
    if not ps: raise Unsupported('a text is replaced in a loop')
    first = ps[0]
    if first is acc: rest = strlit('')
    elif first.op == 'ite': rest = added(first, acc)
    else: raise Unsupported('a text is not only appended to in a loop')
    r = strjoin([rest] + ps[1:]) if len(ps) > 1 else rest
    if acc in set(T.subterms(r)): raise Unsupported('a text is appended to itself')
    return r


class Appends:
    def __init__(self, kinds=('range', 'for')): self.kinds, self.level = kinds, 0

    def over_lines(self, *a): return None

    def over_range(self, eng, st, fr, rng, decl, body):
        e = rng['inner'][0]['inner'][-1]
        try: lv = eng.lv(st, e, fr)
        except engine.OpaqueLV: return None
        s = eng.peek(st, lv)
        k = self.index()
        v = decl['inner'][0]
        ref = eng.tclass(engine.cast.qt(v))[0] == 'ref'
        if isinstance(s, Vec):
            if s.elems is not None and len(s.elems) <= 8: return None
            n = s.len
            def bind(x):
                lv2 = (lv[0], lv[1] + (('i', k),))
                if not ref: lv2 = eng.alloc(x, eng.peek(x, lv2))
                if v.get('kind') == 'DecompositionDecl': eng.bind_parts(x, fr, v, lv2)
                else: fr.env[v['id']] = lv2
        elif isinstance(s, Term) and s.sort == 'Str':
            n = strlen(s)
            externs.len_facts(st, s)
            def bind(x): fr.env[v['id']] = eng.alloc(x, app('str.at', [s, k], INT))
        else: return None
        return self.run(eng, st, fr, n, k, bind, body, set())

    def over_for(self, eng, st, fr, init, cond, inc, body):
        """for (i = 0; i < n; i++)"""
        if init.get('kind') != 'DeclStmt' or len(init['inner']) != 1: return None
        v = init['inner'][0]
        lv = fr.env.get(v['id'])
        if not lv or lv[1] or cval(st.store[lv[0]]) != 0: return None
        if cond.get('kind') != 'BinaryOperator' or cond.get('opcode') != '<': return None
        a = cond['inner'][0]
        while a.get('kind') == 'ImplicitCastExpr': a = a['inner'][0]
        if (a.get('referencedDecl') or {}).get('id') != v['id']: return None
        if inc.get('kind') != 'UnaryOperator' or inc.get('opcode') != '++' or (inc['inner'][0].get('referencedDecl') or {}).get('id') != v['id']: return None
        p = st.fork()
        eng.quiet += 1
        try: n = eng.rv(p, cond['inner'][1], fr)
        finally: eng.quiet -= 1
        if not isinstance(n, Term) or n.sort != INT or cval(n) is not None: return None
        k = self.index()
        def bind(x): x.store[lv[0]] = k
        def again(s): return eng.rv(s, cond['inner'][1], fr)
        again.n = n
        return self.run(eng, st, fr, n if eng.known(st, le(I(0), n)) else max_(n, I(0)), k, bind, body, {lv[0]}, again)

    def index(self): return K0 if self.level == 0 else var('#k%d' % self.level)

    def run(self, eng, st, fr, n, k, bind, body, counter, again=None):
        eng.assumed.add('induction over the passes of a loop that appends: one pass, from arbitrary texts and sequences, is what every pass does')
        acc = {}
        def once(quiet):
            s = st.fork()
            s.assume(and_(le(I(0), k), lt(k, n)))
            for (c, p), x in acc.items(): eng.put(s, (c, p), x)
            bind(s)
            nthr, nob, nfr = len(eng.throws), len(eng.obls), len(fr.returns)
            eng.quiet += quiet
            self.level += 1
            try: r, brk, rets = eng.iteration(s, fr, None, None, [body], False)
            finally:
                self.level -= 1
                eng.quiet -= quiet
                if quiet: del eng.obls[nob:]
            thr = [t for t in eng.throws[nthr:] if eng.feasible(t.state)]
            del eng.throws[nthr:]
            if thr or rets or [b for b in brk if eng.feasible(b)]: raise Unsupported('a loop that leaves early')
            if r is None: raise Unsupported('a loop without end')
            return s, r
        def changed(r):
            out = []
            for cell, old in st.store.items():
                if cell in counter: continue
                new = r.store.get(cell)
                if new is old: continue
                olds, news = dict(_leaves(old)), dict(_leaves(new))
                for p in olds:
                    if p not in news: raise Unsupported('a loop changes the shape of an object')
                    a = acc.get((cell, p), olds[p])
                    if not same(a, news[p]): out.append((cell, p, olds[p]))
            return out
        for rnd in range(4):
            s, r = once(1)
            new = [(c, p, o) for c, p, o in changed(r) if (c, p) not in acc]
            if not new: break
            for c, p, o in new:
                if isinstance(o, Term) and o.sort == 'Str': acc[c, p] = fresh('acc', 'Str')
                elif isinstance(o, Vec): acc[c, p] = Accum(o.et, [])
                else: raise Unsupported('a loop changes %r' % (o,))
        else: raise Unsupported('what a loop appends to')
        s, r = once(0)
        if again is not None:
            m = again(r)
            if m is not again.n and not eng.known(r, eq(m, again.n)): raise Unsupported('the number of passes changes')
        if counter:
            for c in counter:
                if r.store[c] is not k: raise Unsupported('the counter of the loop changes')
        out = st
        # texts written anew in every pass
        scratch = {}
        for (c, p), a in list(acc.items()):
            v = eng.peek(r, (c, p))
            if isinstance(a, Term) and isinstance(v, Term) and a not in set(T.subterms(v)): scratch[c, p] = a
        for (c, p), a in acc.items():
            v = eng.peek(r, (c, p))
            if (c, p) in scratch:
                eng.put(out, (c, p), fresh('last', 'Str'))
                continue
            self.free_of(v, set(scratch.values()))
            old = eng.peek(st, (c, p))
            if isinstance(a, Accum):
                if not isinstance(v, Vec) or v.elems is None or len(v.elems) != 1: raise Unsupported('not one element appended per pass')
                x = v.elems[0]
                self.local(st, x)
                V._Hook.pc = out.pc
                new = Vec(old.et, None, n, Lam.fn(lambda j: vsubst(x, {k: j})))
                if not (old.elems is not None and not old.elems):
                    o, nn = old, old.len
                    new = Vec(old.et, None, old.len + n, Lam.fn(lambda j: vmerge(lt(j, nn), o.get(j), vsubst(x, {k: j - nn}))))
                eng.put(out, (c, p), new)
            else:
                piece = added(v, a)
                if k is not K0: raise Unsupported('a text appended to in a loop within a loop')
                eng.put(out, (c, p), strcat(old, concat(n, piece, k)))
        for c in counter: out.store[c] = n
        return out

    def free_of(self, v, terms):
        if isinstance(v, Term):
            if terms & set(T.subterms(v)): raise Unsupported('a text of the pass before is used')
        elif isinstance(v, Struct):
            for x in v.f.values(): self.free_of(x, terms)
        elif isinstance(v, Vec):
            for x in (v.elems if v.elems is not None else [v.lam.body, v.len]): self.free_of(x, terms)

    def local(self, st, v):
        """what is appended lives longer than the pass"""
        if isinstance(v, Ptr) and v.loc is not None and v.loc[0] not in st.store: raise Unsupported('pointer to an object of one pass')
        if isinstance(v, Struct):
            for x in v.f.values(): self.local(st, x)
        if isinstance(v, Vec) and v.elems is not None:
            for x in v.elems: self.local(st, x)


@externs.meth('str.pop_back')
def _(eng, st, this, v, a, fr, n):
    externs.len_facts(st, v)
    eng.oblige(st, 'pop_back of a string that is not empty', lt(I(0), strlen(v)))
    r = rotate(v)
    eng.put(st, this, r if r is not None else externs.substr(eng, st, v, I(0), strlen(v) - 1))
    return ('val', None)
