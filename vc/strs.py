"""Texts as concatenations of pieces: searching, cutting and reading single characters (std::string, <cctype>, conversions).

A piece is a literal or an unknown text; what is known of an unknown piece is stated by has(p, c) - p contains character c -
and only(p, S) - every character of p is in the set S."""
from terms import *
import terms as T
from values import *
import engine, externs
from externs import meth, fun, note, strlen, strparts, strjoin, substr, len_facts, METH, FUN, StrIt, strcat, tostr
from engine import strlit, Throw, Dead

NPOS = I(2 ** 64 - 1)
externs.GLOBALS['npos'] = lambda eng, st: NPOS


def has(p, c):
    """p contains the character (a code or a text of one character)"""
    if isinstance(c, str): c = ord(c)
    if p.op == 'strlit': return TRUE if chr(c) in p.args[0] else FALSE
    if p.op == 'app' and p.args[0] == 'strcat': return or_(has(p.args[1], c), has(p.args[2], c))
    return app('str.has', [p, I(c)], BOOL)


def only(p, chars):
    if p.op == 'strlit': return TRUE if all(c in chars for c in p.args[0]) else FALSE
    if p.op == 'app' and p.args[0] == 'strcat': return and_(only(p.args[1], chars), only(p.args[2], chars))
    return app('str.only:' + ''.join(sorted(set(chars))), [p], BOOL)


def anyof(p, chars): return or_(*[has(p, c) for c in sorted(set(chars))])


def at(eng, st, v, i):
    """character i; the terminating zero at i == length"""
    r = at_(eng, st, v, i)
    for x in T.subterms(r):
        if x.op == 'app' and x.args[0] == 'str.at': st.assume(and_(le(I(-128), x), le(x, I(127))))
    return r


def at_(eng, st, v, i):
    ps = strparts(v)
    off = I(0)
    for p in ps:
        d = cval(i - off)
        if p.op == 'strlit':
            if d is not None and 0 <= d < len(p.args[0]): return I(ord(p.args[0][int(d)]))
        elif eng.known(st, and_(le(off, i), lt(i, off + strlen(p)))): return app('str.at', [p, i - off], INT)
        elif not eng.known(st, le(off + strlen(p), i)): break
        off = off + strlen(p)
    else:
        if cval(i - off) == 0: return I(0)
    len_facts(st, v)
    if eng.known(st, eq(i, strlen(v))): return I(0)
    return ite(eq(i, strlen(v)), I(0), app('str.at', [v, i], INT))


def inset(ch, chars): return or_(*[eq(ch, I(ord(c))) for c in sorted(set(chars))])


def literal(eng, st, x):
    """the characters of an argument that is a literal text or character"""
    if isinstance(x, Term) and x.sort == 'Str' and x.op == 'strlit': return x.args[0]
    if isinstance(x, Term) and x.sort == INT and cval(x) is not None: return chr(int(cval(x)))
    raise Unsupported('search for a text that is not a literal')


def size(x):
    c = cval(x)
    return I(int(c) % 2 ** 64) if c is not None else x


def search(eng, st, v, chars, neg, back):
    """first (last) position of a character (not) in a set"""
    len_facts(st, v)
    ps = strparts(v)
    total = strlen(v)
    off = total if back else I(0)
    for p in (reversed(ps) if back else ps):
        n = strlen(p)
        if back: off = off - n
        if p.op == 'strlit':
            s = p.args[0]
            idx = [k for k, c in enumerate(s) if (c in chars) != neg]
            if idx: return off + I(idx[-1] if back else idx[0])
        else:
            absent = only(p, chars) if neg else not_(anyof(p, chars))
            end = app('str.at', [p, n - 1 if back else I(0)], INT)
            hit = inset(end, chars)
            if neg: hit = not_(hit)
            if eng.known(st, absent): pass
            elif eng.known(st, and_(lt(I(0), n), hit)): return off + (n - 1 if back else I(0))
            elif len(ps) == 1:
                # position unknown: a fresh one, or none
                r = fresh('pos', INT)
                ch = app('str.at', [p, r], INT)
                here = not_(inset(ch, chars)) if neg else inset(ch, chars)
                st.assume(or_(and_(le(I(0), r), lt(r, n), here, not_(absent)), and_(eq(r, NPOS), absent)))
                k = fresh('k')
                miss = inset(app('str.at', [p, k], INT), chars)
                if not neg: miss = not_(miss)
                st.assume(forall_(k, implies(and_(le(I(0), k), lt(k, n), lt(r, k) if back else lt(k, r)), miss)))
                return ite(absent, NPOS, r)
            else: raise Unsupported('search in a text of unknown parts')
        if not back: off = off + n
    return NPOS


def searcher(neg, back):
    def h(eng, st, this, v, a, fr, n):
        x = eng.rv(st, a[0], fr)
        if len(a) > 1 and a[1].get('kind') != 'CXXDefaultArgExpr': raise Unsupported('search from a position')
        return ('val', search(eng, st, v, literal(eng, st, x), neg, back))
    return h


METH['str.find_first_of'], METH['str.find_last_of'] = searcher(False, False), searcher(False, True)
METH['str.find_first_not_of'], METH['str.find_last_not_of'] = searcher(True, False), searcher(True, True)


def findchar(back):
    h = searcher(False, back)
    def g(eng, st, this, v, a, fr, n):
        x = eng.rv(st, a[0], fr)
        if isinstance(x, Term) and x.sort == 'Str' and not (x.op == 'strlit' and len(x.args[0]) == 1): raise Unsupported('search for a text')
        return h(eng, st, this, v, a, fr, n)
    return g


METH['str.find'], METH['str.rfind'] = findchar(False), findchar(True)


@meth('str.operator[]', 'str.front')
def _(eng, st, this, v, a, fr, n): return ('val', at(eng, st, v, eng.rv(st, a[0], fr) if a else I(0)))


@meth('str.at')
def _(eng, st, this, v, a, fr, n):
    i = eng.rv(st, a[0], fr)
    len_facts(st, v)
    ok = lt(i, strlen(v))
    if not eng.known(st, ok):
        eng.throws.append(Throw(st.fork(not_(ok)), 'std::out_of_range', 'std::string::at'))
        if eng.known(st, not_(ok)): raise Dead()
        st.assume(ok)
    return ('val', at(eng, st, v, i))


class Squeezed(Opaque):
    """end of what std::remove_if keeps"""
    def __init__(self, lv, text):
        Opaque.__init__(self, 'end of the kept characters')
        self.lv, self.text = lv, text


@meth('str.erase')
def _(eng, st, this, v, a, fr, n):
    a = [x for x in a if x.get('kind') != 'CXXDefaultArgExpr']
    x = eng.rv(st, a[0], fr) if a else I(0)
    if isinstance(x, Squeezed):
        e = eng.rv(st, a[1], fr)
        if x.lv != this or not isinstance(e, StrIt) or e.lv != this or e.end is not True: raise Unsupported('part of a text erased')
        eng.put(st, this, x.text)
        return ('val', None)
    x = size(x)
    len_facts(st, v)
    n_ = strlen(v)
    big = lt(n_, x)
    if not eng.known(st, not_(big)):
        eng.throws.append(Throw(st.fork(big), 'std::out_of_range', 'std::string::erase'))
        if eng.known(st, big): raise Dead()
        st.assume(not_(big))
    c = size(eng.rv(st, a[1], fr)) if len(a) > 1 else n_ - x
    if eng.known(st, le(n_ - x, c)): c = n_ - x
    elif not eng.known(st, le(c, n_ - x)): raise Unsupported('part of a text erased')
    eng.put(st, this, strcat(substr(eng, st, v, I(0), x), substr(eng, st, v, x + c, n_ - x - c)))
    return ('lv', this)


def squeeze(v):
    """the characters of v that are not blank, in order"""
    out = []
    for p in strparts(v):
        if p.op == 'strlit': out.append(strlit(''.join(c for c in p.args[0] if c not in ' \t\n\v\f\r')))
        else: out.append(app('str.squeeze', [p], 'Str'))
    return strjoin(out)


@fun('remove_if')
def _(eng, st, a, fr, n):
    p, q = [eng.rv(st, y, fr) for y in a[:2]]
    f = eng.rv(st, a[2], fr)
    if not (isinstance(p, StrIt) and isinstance(q, StrIt) and p.lv == q.lv and p.end is False and q.end is True): raise Unsupported('remove_if')
    if not (isinstance(f, externs.FnRef) and f.d.get('name') == 'isspace'):
        c = fresh('c')
        s = st.fork(and_(le(I(-128), c), le(c, I(127))))
        if not eng.known(s, eq(externs.char_test(eng, s, f, c, fr), blank(c))): raise Unsupported('remove_if with another predicate')
    note(eng, 'isspace tells the six blank characters of the C locale')
    return ('val', Squeezed(p.lv, squeeze(eng.peek(st, p.lv))))


# ---------------------------------------------------------------- characters
def digit(c): return and_(le(I(48), c), le(c, I(57)))


@fun('isdigit')
def _(eng, st, a, fr, n):
    c = eng.rv(st, a[0], fr)
    if not isinstance(c, Term): raise Unsupported('isdigit')
    return ('val', ite(digit(c), I(1), I(0)))


def blank(c): return or_(eq(c, I(32)), and_(le(I(9), c), le(c, I(13))))


externs.CTYPE['isspace'], externs.CTYPE['isdigit'] = blank, digit


@fun('erase_if')
def _(eng, st, a, fr, n):
    lv = eng.lv(st, a[0], fr)
    v = eng.peek(st, lv)
    if not (isinstance(v, Term) and v.sort == 'Str'): raise Unsupported('erase_if')
    f = eng.rv(st, a[1], fr)
    c = fresh('c')
    s = st.fork(and_(le(I(-128), c), le(c, I(127))))
    if not eng.known(s, eq(externs.char_test(eng, s, f, c, fr), blank(c))): raise Unsupported('erase_if with another predicate')
    note(eng, 'isspace tells the six blank characters of the C locale')
    w = squeeze(v)
    eng.put(st, lv, w)
    return ('val', strlen(v) - strlen(w))


@fun('isspace')
def _(eng, st, a, fr, n):
    c = eng.rv(st, a[0], fr)
    return ('val', ite(or_(eq(c, I(32)), and_(le(I(9), c), le(c, I(13)))), I(1), I(0)))


# ---------------------------------------------------------------- conversions
def isint(s): return app('text.isint', [s], BOOL)


def isreal(s): return app('text.isreal', [s], BOOL)


def parsed(s): return app('strtod.end', [s], INT)


class CharPtr(Opaque):
    """a position in the characters of a text"""
    def __init__(self, s, i):
        Opaque.__init__(self, 'position in a text')
        self.text, self.i = s, i


def textptr(eng, st, op, a, b):
    def istext(x): return isinstance(x, CharPtr) or isinstance(x, Term) and x.sort == 'Str'
    def pos(x): return (x.text, x.i) if isinstance(x, CharPtr) else (x, I(0))
    if not (isinstance(a, CharPtr) or isinstance(b, CharPtr) or op == '+' and istext(a) and isinstance(b, Term) and b.sort == INT): return None
    if op in ('+', '-') and istext(a) and isinstance(b, Term) and b.sort == INT:
        s, i = pos(a)
        return CharPtr(s, i + b if op == '+' else i - b)
    if istext(a) and istext(b):
        (s, i), (t, j) = pos(a), pos(b)
        if s is t:
            if op == '-': return i - j
            if op in ('==', '!='): return eq(i, j) if op == '==' else not_(eq(i, j))
            if op in ('<', '<=', '>', '>='): return {'<': lt(i, j), '<=': le(i, j), '>': lt(j, i), '>=': le(j, i)}[op]
    return None


engine.TEXTPTR = textptr


@fun('strtod')
def _(eng, st, a, fr, n):
    s = eng.rv(st, a[0], fr)
    if not (isinstance(s, Term) and s.sort == 'Str'): raise Unsupported('strtod')
    e = eng.rv(st, a[1], fr)
    len_facts(st, s)
    st.assume(and_(le(I(0), parsed(s)), le(parsed(s), strlen(s))))
    st.assume(implies(anyof(s, '.eE'), lt(I(0), strlen(s))))
    if isinstance(e, Ptr) and e.loc is not None: eng.put(st, e.loc, CharPtr(s, parsed(s)))
    return ('val', app('strtod', [s], REAL))


def conversion(name, sort, valid, value, over):
    @fun(name)
    def _(eng, st, a, fr, n):
        s = eng.rv(st, a[0], fr)
        if not (isinstance(s, Term) and s.sort == 'Str'): raise Unsupported(name)
        for x in a[1:]:
            if x.get('kind') != 'CXXDefaultArgExpr': raise Unsupported(name + ' with further arguments')
        note(eng, 'std::%s reads the whole of a text that is a number of its kind, raises std::out_of_range exactly when that number does not fit, and may raise std::invalid_argument for other texts' % name)
        bad = app(name + '.invalid', [s], BOOL)
        st.assume(implies(anyof(s, '.eE'), lt(I(0), strlen(s))))
        st.assume(implies(valid(s), not_(bad)))
        for c, exc in ((bad, 'std::invalid_argument'), (over(s), 'std::out_of_range')):
            if not eng.known(st, not_(c)):
                eng.throws.append(Throw(st.fork(c), exc, 'std::' + name))
                if eng.known(st, c): raise Dead()
                st.assume(not_(c))
        return ('val', value(s))


def intval(s): return app('text.int', [s], INT)


def realval(s): return app('strtod', [s], REAL)


def intover(s): return app('text.int.over', [s], BOOL)


def realover(s): return app('text.real.over', [s], BOOL)


conversion('stoi', INT, isint, intval, intover)
conversion('stod', REAL, lambda s: and_(lt(I(0), strlen(s)), eq(parsed(s), strlen(s))), realval, realover)


# ---------------------------------------------------------------- std::variant<std::string, bool, int, double>
VARIANT = '#variant'
FIELDS = (('text', 'Str', strlit('')), ('truth', BOOL, FALSE), ('int', INT, I(0)), ('real', REAL, R(0)))


def alternatives(t):
    import cast
    t = cast.norm_type(t)
    parts = [x.strip() for x in t[t.index('<') + 1:t.rindex('>')].split(',')]
    if parts != ['std::string', 'bool', 'int', 'double']: raise Unsupported('variant of ' + t)


def variant(which, v):
    f = {n: d for n, s, d in FIELDS}
    f[FIELDS[which][0]] = v
    f['which'] = I(which)
    return Struct(VARIANT, f)


def vite(c, a, b):
    return Struct(VARIANT, {k: ite(c, a.f[k], b.f[k]) for k in a.f})


def symvariant(leaf):
    w = leaf('.which', INT)
    f = {n: ite(eq(w, I(i)), leaf('.' + n, s), d) for i, (n, s, d) in enumerate(FIELDS)}
    f['which'] = w
    return Struct(VARIANT, f)


def tovariant(v):
    if isinstance(v, Struct) and v.cls == VARIANT: return v
    if isinstance(v, Term):
        for i, (n, s, d) in enumerate(FIELDS):
            if v.sort == s: return variant(i, v)
    raise Unsupported('variant from %r' % (v,))


class Variants:
    @staticmethod
    def empty(t):
        alternatives(t)
        return variant(0, strlit(''))

    @staticmethod
    def convert(t, v):
        alternatives(t)
        return tovariant(v)

    @staticmethod
    def sym(t, leaf):
        alternatives(t)
        return symvariant(leaf)


engine.VARIANTS = Variants
engine.CHARAT = at
