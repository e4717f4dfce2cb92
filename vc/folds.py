"""Rule for a loop that handles the texts of a sequence one after the other (lines of a file, arguments of a command line).

The contract names the object the loop builds up (a map), every form a text can have, and what one step does for each form.  The
rule runs the loop's body once per form, from an arbitrary map and an arbitrary value of everything else the loop changes, and
obliges the result of the body to be the step's; by induction over the sequence the loop then is the fold of that step.  What the
map holds afterwards is named 'the fold' and nothing else is known of it."""
from terms import *
import terms as T
from values import *
import contract, loops, engine, externs
from engine import Throw, Dead


class Fold:
    def __init__(self, kind, maplv, cases, source):
        # cases: [(label, text(s) -> text, step(eng, s, map, flag, text) -> (map or None, flag or None, condition of rejection))]
        self.kind, self.maplv, self.cases, self.source = kind, maplv, cases, source
        self.used = False

    def over_lines(self, eng, st, fr, cond, body):
        if self.kind != 'lines': return None
        n = cond
        while n.get('kind') != 'CallExpr' and len(n.get('inner', [])) == 1: n = n['inner'][0]
        if n.get('kind') != 'CallExpr': return None
        d = n['inner'][0]
        while d.get('inner'): d = d['inner'][0]
        if (d.get('referencedDecl') or {}).get('name') != 'getline' or len(n['inner']) != 3: return None
        s = eng.peek(st, eng.lv(st, n['inner'][1], fr))
        if not isinstance(s, File): raise Unsupported('lines of something that is not a file')
        eng.oblige(st.fork(), 'the lines are those of the file named', eq(s.path, self.source))
        lv = eng.lv(st, n['inner'][2], fr)
        if lv[1]: raise Unsupported('line read into part of an object')
        return run_fold(eng, st, fr, lv[0], body)

    def over_range(self, eng, st, fr, rng, decl, body):
        if self.kind != 'range': return None
        e = rng['inner'][0]['inner'][-1]
        lv = eng.lv(st, e, fr)
        if not isinstance(eng.peek(st, lv), Vec): return None
        if lv != self.source: raise Unsupported('a loop over other texts')
        v = decl['inner'][0]
        if v.get('kind') != 'VarDecl': raise Unsupported('structured binding of a text')
        lv = eng.alloc(st, fresh('text', 'Str'))
        fr.env[v['id']] = lv
        return run_fold(eng, st, fr, lv[0], body)


class File(Opaque):
    """a file opened for reading"""
    def __init__(self, path):
        Opaque.__init__(self, 'file')
        self.path = path


def openfile(eng, st, t, args, fr, n):
    if not args: raise Unsupported('file not opened at once')
    for x in args[1:]:
        if x.get('kind') != 'CXXDefaultArgExpr': raise Unsupported('how a file is opened')
    v = eng.rv(st, args[0], fr)
    if not (isinstance(v, Term) and v.sort == 'Str'): raise Unsupported('name of a file')
    return File(v)


for _t in ('std::basic_ifstream', 'std::ifstream'): externs.CONSTRUCT[_t] = openfile
externs.OPAQUE.insert(0, ('file', lambda eng, st, what, name, args, fr, n, this=None: closing(name)))


def closing(name):
    if name == 'close': return ('val', None)
    raise Unsupported('method %s of a file' % name)


def leaves_changed(eng, a, b):
    out = []
    for cell in a:
        if cell in b and not same(a[cell], b[cell]): out.append(cell)
    return out


def shape(old, nm):
    if isinstance(old, Term): return fresh(nm, old.sort)
    raise Unsupported('a loop over texts changes %r' % (old,))


def run_fold(eng, st, fr, textcell, body):
    F = eng.fold
    if F.used: raise Unsupported('a second loop over texts')
    F.used = True
    eng.assumed.add('induction over the texts of a sequence: one step, proved for every form of text from an arbitrary state, is what the whole loop repeats')
    mlv = F.maplv
    m0 = eng.peek(st, mlv)
    if not isinstance(m0, MapV): raise Unsupported('what a loop over texts builds up')
    mk = fresh('mk', 'Str')
    k0 = contract.Sym.value(eng, m0.et, 'M.at', None, (mk,), st)
    M = MapV(m0.et, mk, app('M.has', [mk], BOOL), k0)
    carried = {}
    def start():
        s = st.fork()
        eng.put(s, mlv, M)
        for c, v in carried.items(): s.store[c] = v
        return s
    def once(s, text):
        s.store[textcell] = text
        nthr = len(eng.throws)
        try: r, brk, rets = eng.iteration(s, fr, None, None, [body], False)
        except Dead: r, brk, rets = None, [], []
        thr = eng.throws[nthr:]
        del eng.throws[nthr:]
        return r, brk, rets, thr
    # what else changes?
    for rnd in range(4):
        new = []
        eng.quiet += 1
        nob = len(eng.obls)
        try:
            for lab, mktext, step in F.cases:
                s = start()
                text = mktext(eng, s)
                before = dict(s.store)
                r, brk, rets, thr = once(s, text)
                if r is None: continue
                for cell in leaves_changed(eng, before, r.store):
                    if cell == textcell or cell in carried or cell not in st.store or cell in new: continue
                    if cell == mlv[0]:
                        b = State_with(before)
                        eng_put_same(eng, b, mlv, before, r)
                        if same(b[cell], r.store[cell]): continue
                        raise Unsupported('a loop over texts changes another part of the object')
                    new.append(cell)
        finally:
            eng.quiet -= 1
            del eng.obls[nob:]
        if not new: break
        for c in new: carried[c] = shape(st.store[c], 'carried')
    else: raise Unsupported('what a loop over texts changes')
    flags = [c for c in carried if carried[c].sort == BOOL]
    entry = {c: st.store[c] for c in carried}
    if len(flags) > 1: raise Unsupported('several flags in a loop over texts')
    flag = carried[flags[0]] if flags else None
    if flag is not None and entry[flags[0]] is not FALSE: eng.oblige(st.fork(), 'the flag of the loop is off at the start', not_(entry[flags[0]]))
    # the step
    for lab, mktext, step in F.cases:
        s = start()
        text = mktext(eng, s)
        if not eng.feasible(s):
            eng.obls.append(contract.Obl('the form of text exists [%s]' % lab, False, 'vacuous', FALSE, 0, None, eng.curname))
            continue
        pre = s.fork()
        wantm, wantf, rej = step(eng, pre, M, flag, text)
        r, brk, rets, thr = once(s, text)
        for t in thr:
            if eng.feasible(t.state): eng.oblige(t.state.fork(), 'a text is rejected only where the rule says so [%s]' % lab, rej)
        for t in list(brk):
            if eng.feasible(t): eng.oblige(t.fork(), 'no text ends the loop [%s]' % lab, FALSE)
        for t in rets:
            raise Unsupported('return from a loop over texts')
        if r is None:
            if not thr and not brk: raise Unsupported('a loop over texts')
            if not brk: eng.oblige(pre.fork(), 'a text is accepted where the rule says so [%s]' % lab, rej)
            continue
        if rej is not FALSE: eng.oblige(r.fork(), 'a text is accepted only where the rule says so [%s]' % lab, not_(rej))
        q = var('name!', 'Str')
        act = eng.peek(r, mlv)
        want = M if wantm is None else wantm
        eng.oblige(r.fork(), 'which names are set after a text [%s]' % lab, and_(implies(want.has_at(q), act.has_at(q)), implies(act.has_at(q), want.has_at(q))))
        contract.compare(eng, r.fork(want.has_at(q)), want.at(q), act.at(q), 'the values of the names after a text [%s]' % lab)
        if flag is not None and wantf is not None:
            contract.compare(eng, r, wantf, r.store[flags[0]], 'the flag after a text [%s]' % lab)
        elif wantf is not None and wantf is not flag:
            raise Unsupported('no flag in a loop over texts')
    # afterwards
    out = st
    mk = fresh('mk', 'Str')
    eng.put(out, mlv, MapV(m0.et, mk, app('fold.has', [mk], BOOL), contract.Sym.value(eng, m0.et, 'fold.at', None, (mk,), out)))
    for c in carried: out.store[c] = shape(entry[c], 'after')
    out.store[textcell] = fresh('last', 'Str')
    thrown = var('fold.rejected', BOOL)
    if any(True for _, _, step in F.cases if getattr(step, 'rejects', False)):
        eng.throws.append(Throw(out.fork(thrown), 'std::out_of_range', 'a text of the sequence'))
        out.assume(not_(thrown))
    return out


def State_with(store): return dict(store)


def eng_put_same(eng, b, mlv, before, r):
    """the object with the map of r put into what was there before"""
    s = engine.State()
    s.store = b
    eng.put(s, mlv, eng.peek(r, mlv))
    b.update(s.store)


def folded(eng, st, et):
    mk = fresh('mk', 'Str')
    return MapV(et, mk, app('fold.has', [mk], BOOL), contract.Sym.value(eng, et, 'fold.at', None, (mk,), st))


REJECTED = var('fold.rejected', BOOL)
