"""Contracts of the options (src/Options.cpp) and the command line (src/InputParser.cpp)."""
from terms import *
from values import *
from contract import *
import engine, strs, folds
from engine import strlit
from externs import strcat, strlen, strjoin, len_facts
from specs.hps import oblige

CONTRACTS = []
O = 'Options'
MAP = (('f', 'optionsMap'),)


def C(key, nargs=None, ptypes=None, inline=True, **kw):
    def d(f):
        CONTRACTS.append(Contract(key, f, nargs, ptypes, inline=inline, weak=True, **kw))
        return f
    return d


def iff(a, b): return and_(implies(a, b), implies(b, a))


# ------------------------------------------------------------------ the map
def index_post(c):
    """what writing and reading through the result means"""
    k, m = c.val(0), c.this.f['optionsMap']
    def post(eng, st, pre, tag):
        a = eng.peek(st, c.thislv).f['optionsMap']
        q = var('name!', 'Str')
        eng.oblige(st.fork(), 'the name is set afterwards' + tag, a.has_at(k))
        eng.oblige(st.fork(), 'other names are as set as before' + tag, or_(eq(q, k), iff(a.has_at(q), m.has_at(q))))
        compare(eng, st.fork(and_(m.has_at(q), ne(q, k))), m.at(q), a.at(q), 'values of other names' + tag)
        compare(eng, st.fork(m.has_at(k)), m.at(k), eng.load(st, c.res_lv), 'the result is the value of the name' + tag)
        new = Sym.value(eng, m.et, 'written', None, (), st)
        s2 = st.fork()
        eng.put(s2, c.res_lv, new)
        b = eng.peek(s2, c.thislv).f['optionsMap']
        compare(eng, s2.fork(), new, b.at(k), 'the value written through the result is read under the name' + tag)
        compare(eng, s2.fork(and_(m.has_at(q), ne(q, k))), m.at(q), b.at(q), 'values of other names after the write' + tag)
        eng.oblige(s2.fork(), 'presence is not changed by the write' + tag, iff(b.has_at(q), a.has_at(q)))
    return post


@C(O + '::operator[]', 1)
def _(c):
    if c.mode == 'apply': raise Unsupported('options at a call site')
    c.set(c.field('optionsMap'), Pred(lambda v: TRUE, 'see below'))
    c.post_hooks.append(index_post(c))


@C(O + '::setOption', 2)
def _(c):
    c.set(c.field('optionsMap'), c.this.f['optionsMap'].put(c.val(0), c.val(1)))


@C(O + '::optionExists', 1)
def _(c): c.ret(c.this.f['optionsMap'].has_at(c.val(0)))


@C(O + '::Options', 0)
def _(c):
    if c.mode == 'apply': raise Unsupported('options built at a call site')
    c.post_hooks.append(lambda eng, st, pre, tag: eng.oblige(st.fork(), 'new options are empty' + tag, not_(eng.peek(st, c.thislv).f['optionsMap'].has_at(var('name!', 'Str')))))


@C(O + '::Options', 1, ['std::map<std::string, std::variant<std::string, bool, int, double>>'])
def _(c): c.setthis(Struct(c.f.cls, {'optionsMap': c.val(0)}))


# ------------------------------------------------------------------ what a text is read as
K = var('k!int')


def isint(s):
    """an optional sign and at least one digit, nothing else"""
    c0 = ite(eq(strlen(s), I(0)), I(0), app('str.at', [s, I(0)], INT)) if s.op != 'strlit' else None
    first = ite(or_(eq(c0, I(45)), eq(c0, I(43))), I(1), I(0))
    return and_(lt(first, strlen(s)), forall_(K, implies(and_(le(first, K), lt(K, strlen(s))), strs.digit(app('str.at', [s, K], INT)))))


def isreal(s):
    return and_(strs.anyof(s, '.eE'), strs.only(s, '+-.0123456789eE'), eq(strs.parsed(s), strlen(s)))


strs.conversion('stoi', INT, isint, strs.intval, strs.intover)


def classify(s):
    """the value a text is read as, and when it is rejected; a text of digits has no point and no exponent"""
    if s.op == 'strlit':
        if s.args[0] in ('true', 'false'): return strs.variant(1, TRUE if s.args[0] == 'true' else FALSE), FALSE
        if s.args[0] == '': return strs.variant(0, s), FALSE
        raise Unsupported('literal option')
    t, f = eq(s, strlit('true')), eq(s, strlit('false'))
    r, i = isreal(s), isint(s)
    v = strs.vite(r, strs.variant(3, strs.realval(s)), strs.vite(i, strs.variant(2, strs.intval(s)), strs.variant(0, s)))
    v = strs.vite(t, strs.variant(1, TRUE), strs.vite(f, strs.variant(1, FALSE), v))
    word = or_(t, f)
    return v, and_(not_(word), or_(and_(r, strs.realover(s)), and_(not_(r), i, strs.intover(s))))


def digits(eng, base, nints):
    s = eng.text
    def mk(lo):
        def inv(i): return forall_(K, implies(and_(le(lo, K), lt(K, i)), strs.digit(app('str.at', [s, K], INT))))
        return inv
    def upper(i): return le(i, strlen(s))
    c0 = ite(eq(strlen(s), I(0)), I(0), app('str.at', [s, I(0)], INT))
    first = ite(or_(eq(c0, I(45)), eq(c0, I(43))), I(1), I(0))
    if nints != 1: return []
    return [lambda i: le(first, i), mk(first), upper]


def digit_setup(eng, st, this, argv):
    a = argv[0]
    eng.text = eng.peek(st, a[1]) if a[0] == 'lv' else a[1]
    len_facts(st, eng.text)
    eng.loop_candidates = digits
    eng.loop_bounds = lambda e, s: [strlen(eng.text)]
    return argv


@C(O + '::isInt', 1, inline=False, variants=[('any text', digit_setup)])
def _(c):
    s = c.val(0)
    c.fact(implies(isint(s), not_(strs.anyof(s, '.eE'))))      # digits only: no point, no exponent
    c.ret(isint(s))


@C(O + '::isDouble', 1, inline=False)
def _(c): c.ret(isreal(c.val(0)))


@C(O + '::checkValue', 1, inline=False)
def _(c):
    v, bad = classify(c.val(0))
    c.throws(bad)
    c.ret(v)


@C(O + '::stripWhitespace', 1)
def _(c): c.set(c.argv[0][1], strs.squeeze(c.val(0)))


# ------------------------------------------------------------------ sequences of texts
def piece(s, name, without='', nonempty=False, first=None, last=None, chars=None):
    """an unknown part of a text"""
    p = var(name, 'Str')
    len_facts(s, p)
    for ch in without: s.assume(not_(strs.has(p, ch)))
    if nonempty: s.assume(lt(I(0), strlen(p)))
    if first: s.assume(and_(lt(I(0), strlen(p)), not_(strs.inset(app('str.at', [p, I(0)], INT), first))))
    if last: s.assume(and_(lt(I(0), strlen(p)), not_(strs.inset(app('str.at', [p, strlen(p) - 1], INT), last))))
    if chars: s.assume(strs.only(p, chars))
    return p


def keep(eng, s, m, flag, text): return None, flag, FALSE


def put(key, value, rejects=True):
    def step(eng, s, m, flag, text):
        k, v = key(s), value(s)
        if isinstance(v, Term): v, bad = classify(v)
        else: bad = FALSE
        return m.put(k, v), flag, bad
    step.rejects = rejects
    return step


def arguments(empty):
    """the forms of a command-line argument"""
    def named(dashes, withvalue, emptyname, emptyvalue):
        def text(eng, s):
            if emptyname: n = strlit('')
            else: n = piece(s, 'name', '=', True, '-' if dashes == 1 else None)
            v = strlit('') if emptyvalue else piece(s, 'value', nonempty=True)
            return strjoin([strlit('-' * dashes), n] + ([strlit('='), v] if withvalue else []))
        name = lambda s: strlit('') if emptyname else var('name', 'Str')
        value = (lambda s: strlit('') if emptyvalue else var('value', 'Str')) if withvalue else (lambda s: strs.variant(0, strlit('')))
        lab = '-' * dashes + ('' if emptyname else 'name') + ('=' if withvalue else '') + ('value' if withvalue and not emptyvalue else '')
        return (lab, text, put(name, value))
    out = []
    for d in (1, 2):
        for en in (False, True):
            for w, ev in ((True, False), (True, True), (False, True)):
                if d == 1 and en and not w: continue     # a lone '-' : see below
                out.append(named(d, w, en, ev))
    out.append(('-', lambda eng, s: strlit('-'), put(lambda s: strlit(''), lambda s: strs.variant(0, strlit('')))))
    out.append(('the empty argument', lambda eng, s: strlit(''), keep))
    out.append(('not an option', lambda eng, s: piece(s, 'word', first='-'), keep))
    return out


def real_options(eng):
    eng.overrides = dict(eng.overrides or {})
    eng.overrides[O + '::operator[]'] = lambda e, st, f, this, argv: e.call_body(st, f, this, argv)


def parse_setup(eng, st, this, argv):
    real_options(eng)
    lv = argv[0][1]
    eng.fold = folds.Fold('range', (lv[0], lv[1] + MAP), arguments(True), (this[0], this[1] + (('f', 'args'),)))
    return argv


@C('InputParser::parse', 1, variants=[('any command line', parse_setup)])
def _(c):
    lv = c.argv[0][1]
    c.throws(folds.REJECTED)
    c.set((lv[0], lv[1] + MAP), folds.folded(c.eng, c.pre, c.val(0).f['optionsMap'].et))


BL = ' \t'


def lines(section):
    def line(core):
        def text(eng, s):
            a, b = piece(s, 'lead', chars=BL), piece(s, 'trail', chars=BL)
            return strjoin([a] + core(s) + [b])
        return text
    end = dict(last=BL)
    out = [('blank', lambda eng, s: piece(s, 'lead', chars=BL), keep),
           ('; alone', line(lambda s: [strlit(';')]), keep),
           ('; comment', line(lambda s: [strlit(';'), piece(s, 'rest', last=BL)]), keep)]
    def sect(core, name):
        def step(eng, s, m, flag, text): return None, eq(name(s), section), FALSE
        return core, step
    for lab, core, name in (('[]', lambda s: [strlit('[]')], lambda s: strlit('')), ('[section]', lambda s: [strlit('['), piece(s, 'name', nonempty=True), strlit(']')], lambda s: var('name', 'Str'))):
        t, step = sect(core, name)
        out.append((lab, line(t), step))
    def assign(key, value):
        def step(eng, s, m, flag, text):
            v, bad = classify(strs.squeeze(value))
            new = m.put(strs.squeeze(key), v)
            k = fresh('mk', 'Str')
            return MapV(m.et, k, ite(flag, new.has_at(k), m.has_at(k)), vmerge(flag, new.at(k), m.at(k))), flag, and_(flag, bad)
        step.rejects = True
        return step
    E = strlit('')
    kv, vv = var('key', 'Str'), var('value', 'Str')
    kp = lambda s: piece(s, 'key', '=', True, BL + ';[')
    ks = lambda s: piece(s, 'key', '=', True, BL + ';')
    vp = lambda s: piece(s, 'value', last=BL)
    def brk(s):
        piece(s, 'key', '=', True, BL + ';')
        s.assume(eq(app('str.at', [kv, I(0)], INT), I(ord('['))))
        return kv
    out.append(('key=value', line(lambda s: [kp(s), strlit('='), vp(s)]), assign(kv, vv)))
    out.append(('key=', line(lambda s: [ks(s), strlit('=')]), assign(kv, E)))
    out.append(('[key=value', line(lambda s: [brk(s), strlit('='), piece(s, 'value', last=BL + ']')]), assign(kv, vv)))
    out.append(('=value', line(lambda s: [strlit('='), vp(s)]), assign(E, vv)))
    out.append(('=', line(lambda s: [strlit('=')]), assign(E, E)))
    out.append(('no =', line(lambda s: [piece(s, 'word', '=', True, BL + ';[', BL)]), keep))
    def open_(s):
        w = piece(s, 'word', '=', True, BL + ';', BL + ']')
        s.assume(eq(app('str.at', [w, I(0)], INT), I(ord('['))))
        return w
    out.append(('[ not closed', line(lambda s: [open_(s)]), keep))
    return out


def ini_setup(eng, st, this, argv):
    real_options(eng)
    eng.fold = folds.Fold('lines', (this[0], this[1] + MAP), lines(eng.arg_val(st, argv[1])), eng.arg_val(st, argv[0]))
    return argv


@C(O + '::readINIFile', 2, variants=[('any file', ini_setup)])
def _(c):
    c.throws(folds.REJECTED)
    c.set(c.field('optionsMap'), folds.folded(c.eng, c.pre, c.this.f['optionsMap'].et))


# ------------------------------------------------------------------ which file, which arguments
def file_setup(eng, st, this, argv):
    real_options(eng)
    name = eng.arg_val(st, argv[0])
    len_facts(st, name)
    def read(e, s, f, th, a):
        e.oblige(s.fork(), 'the options read into are these', TRUE if th == this else FALSE)
        compare(e, s, name, e.arg_val(s, a[0]), 'the file read')
        compare(e, s, strlit('EllipticForest'), e.arg_val(s, a[1]), 'the section read')
        e.put(s, (this[0], this[1] + MAP), folds.folded(e, s, e.peek(s, this).f['optionsMap'].et))
        return ('val', None)
    eng.overrides[O + '::readINIFile'] = read
    return argv


@C(O + '::setFromFile', 1, variants=[('any name', file_setup)])
def _(c):
    n = c.val(0)
    end = app('str.substr', [n, strlen(n) - 3, I(3)], 'Str')
    c.throws(or_(lt(strlen(n), I(3)), ne(end, strlit('ini'))))
    c.set(c.field('optionsMap'), folds.folded(c.eng, c.pre, c.this.f['optionsMap'].et))


ARGC = var('argc')


def argv_setup(eng, st, this, argv):
    st.assume(and_(le(I(1), ARGC), lt(ARGC, I(2 ** 31))))
    k = fresh('k')
    arr = eng.alloc(st, Vec('char *', None, ARGC, Lam(k, app('argv', [k], 'Str'))))
    st.store[argv[0][1][0]] = ARGC
    st.store[argv[1][1][0]] = Ptr((arr[0], (('i', I(0)),)))
    return argv


@C('InputParser::InputParser', 2, variants=[('any command line', argv_setup)])
def _(c):
    k = fresh('k')
    c.setthis(Struct(c.f.cls, {'args': Vec('std::string', None, ARGC - 1, Lam(k, app('argv', [k + 1], 'Str')))}))
