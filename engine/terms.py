"""Hash-consed value-graph terms (the abstract domain).

A term denotes a run-time value as a function of the symbolic inputs of the analysed
function.  Joins of the control-flow graph are `ite` nodes over canonical (BDD-ordered)
conditions, arrays and closures-over-indices are `lam` nodes with canonical binders.
"""
from fractions import Fraction
import sys
sys.setrecursionlimit(200000)

class T:
    __slots__ = ('op', 'a', 'id', 'fv', 'h', 'b', '__weakref__')
    def __repr__(self):
        return show(self)
    def __lt__(self, o):
        return self.id < o.id

_tab = {}
_n = [0]
_EMPTY = frozenset()
BOOLOPS = {'true', 'false', 'eq', 'lt', 'isvar', 'batom'}

def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.a = a
    _n[0] += 1
    t.id = _n[0]
    fv = _EMPTY
    h = 0
    for x in a:
        if x.__class__ is T:
            if x.fv:
                fv = fv | x.fv if fv else x.fv
            if x.h > h:
                h = x.h
    if op == 'var':
        fv = frozenset((a[0],))
    if op == 'lam':
        h = a[0]
    t.fv = fv
    t.h = h
    t.b = op in BOOLOPS or (op == 'ite' and a[1].b and a[2].b)
    _tab[k] = t
    return t

TRUE = mk('true')
FALSE = mk('false')
BOT = mk('bot')

def is_bool(t):
    return t.b

# ---------------------------------------------------------------- constants
def num(x):
    return mk('num', Fraction(x))
ZERO = num(0)
ONE = num(1)
INF = mk('inf')

def string(s):
    return mk('str', s)

def sym(name, *extra):
    return mk('sym', name, *extra)

_fresh = [0]
def fresh():
    _fresh[0] += 1
    return mk('var', _fresh[0])

_unks = [0]
def unk(why, *deps):
    """an unknown value: two unknowns are never the same value (a loop meets a new one on every iteration)"""
    _unks[0] += 1
    return mk('unk', why, _unks[0], *deps)

# ---------------------------------------------------------------- booleans (BDD)
def _top(c):
    if c is TRUE or c is FALSE:
        return None
    return c.a[0] if c.op == 'ite' else c

def _cof(c, atom, v):
    if c.op == 'ite':
        if c.a[0] is atom:
            return c.a[1] if v else c.a[2]
        return c
    if c is atom and c.b:
        return TRUE if v else FALSE
    return c

_bdd_memo = {}
def _mkb(atom, hi, lo):
    if hi is lo:
        return hi
    if hi is TRUE and lo is FALSE:
        return atom
    return mk('ite', atom, hi, lo)

def b_ite(c, x, y):
    if c is TRUE: return x
    if c is FALSE: return y
    if x is y: return x
    if x is TRUE and y is FALSE: return c
    k = (c, x, y)
    r = _bdd_memo.get(k)
    if r is not None:
        return r
    ts = [t for t in (_top(c), _top(x), _top(y)) if t is not None]
    a = min(ts, key=lambda t: t.id)
    hi = b_ite(_cof(c, a, True), _cof(x, a, True), _cof(y, a, True))
    lo = b_ite(_cof(c, a, False), _cof(x, a, False), _cof(y, a, False))
    r = _mkb(a, hi, lo)
    _bdd_memo[k] = r
    return r

def band(*xs):
    r = TRUE
    for x in xs:
        r = b_ite(r, x, FALSE)
    return r

def bor(*xs):
    r = FALSE
    for x in xs:
        r = b_ite(r, TRUE, x)
    return r

def bnot(x):
    return b_ite(x, FALSE, TRUE)

def implies_b(p, c):
    """p => c as a propositional BDD tautology"""
    return band(p, bnot(c)) is FALSE

def atoms_of(c, acc=None):
    acc = set() if acc is None else acc
    seen = set()
    st = [c]
    while st:
        t = st.pop()
        if t in seen or t is TRUE or t is FALSE:
            continue
        seen.add(t)
        if t.op == 'ite':
            acc.add(t.a[0]); st.append(t.a[1]); st.append(t.a[2])
        else:
            acc.add(t)
    return acc

# ---------------------------------------------------------------- values
AGG = {'adt', 'tup', 'clo', 'fn', 'arrlit'}

def same_head(x, y):
    if x.op != y.op or x.op not in AGG or len(x.a) != len(y.a):
        return False
    for p, q in zip(x.a, y.a):
        if (p.__class__ is T) != (q.__class__ is T):
            return False
        if p.__class__ is not T and p != q:
            return False
    return True

_ite_memo = {}
def ite(c, x, y):
    if c is TRUE: return x
    if c is FALSE: return y
    if x is y: return x
    if x.op == 'bot': return y
    if y.op == 'bot': return x
    if x.b and y.b:
        return b_ite(c, x, y)
    k = (c, x, y)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    if c.op == 'ite' and c.a[1] is FALSE and c.a[2] is TRUE:
        r = ite(c.a[0], y, x)
    elif c.op == 'eq' and (c.a == (x, y) or c.a == (y, x)):
        r = y
    elif same_head(x, y):
        r = build(x.op, *[ite(c, p, q) if p.__class__ is T else p for p, q in zip(x.a, y.a)])
    elif x.op == 'arr' and y.op == 'arr' and x.a[0] is y.a[0]:
        v = fresh()
        r = arr(x.a[0], lam(v, ite(c, app(x.a[1], v), app(y.a[1], v))))
    else:
        ts = [_top(c)]
        for z in (x, y):
            if z.op == 'ite':
                ts.append(z.a[0])
        a = min(ts, key=lambda t: t.id)
        hi = ite(_cof(c, a, True), _cof(x, a, True), _cof(y, a, True))
        lo = ite(_cof(c, a, False), _cof(x, a, False), _cof(y, a, False))
        if hi is lo:
            r = hi
        elif hi.op == 'bot':
            r = lo
        elif lo.op == 'bot':
            r = hi
        elif same_head(hi, lo):
            r = build(hi.op, *[ite(a, p, q) if p.__class__ is T else p for p, q in zip(hi.a, lo.a)])
        else:
            r = mk('ite', a, hi, lo)
    _ite_memo[k] = r
    return r

def lift(v, f):
    """apply f to every leaf of the top-level ite tree of v"""
    if v.op == 'ite' and not v.b:
        return ite(v.a[0], lift(v.a[1], f), lift(v.a[2], f))
    if v.op == 'bot':
        return BOT
    return f(v)

def leaves(v):
    st = [v]; out = []
    seen = set()
    while st:
        t = st.pop()
        if t in seen: continue
        seen.add(t)
        if t.op == 'ite':
            st.append(t.a[2]); st.append(t.a[1])
        else:
            out.append(t)
    return out

def under(v, p):
    """prune the top-level ite tree of v with path condition p (a BDD)"""
    if p is TRUE or v.op != 'ite':
        return v
    c = v.a[0]
    pc = band(p, c)
    if pc is FALSE:
        return under(v.a[2], p)
    pn = band(p, bnot(c))
    if pn is FALSE:
        return under(v.a[1], p)
    x = under(v.a[1], pc); y = under(v.a[2], pn)
    if x is v.a[1] and y is v.a[2]:
        return v
    return ite(c, x, y)

# ---------------------------------------------------------------- arithmetic (light)
def add(x, y):
    if x.op == 'num' and y.op == 'num': return num(x.a[0] + y.a[0])
    if x is ZERO: return y
    if y is ZERO: return x
    if y.op == 'num' and x.op == 'add' and x.a[1].op == 'num':
        return add(x.a[0], num(x.a[1].a[0] + y.a[0]))
    if x.op == 'num': x, y = y, x
    return mk('add', x, y)

def neg(x):
    if x.op == 'num': return num(-x.a[0])
    if x.op == 'neg': return x.a[0]
    return mk('neg', x)

def sub(x, y):
    if x is y and x.op != 'inf': return ZERO
    if y.op == 'num': return add(x, num(-y.a[0]))
    return add(x, neg(y))

def mul(x, y):
    if x.op == 'num' and y.op == 'num': return num(x.a[0] * y.a[0])
    if x is ONE: return y
    if y is ONE: return x
    return mk('mul', x, y)

def div(x, y):
    if y is ONE: return x
    if x.op == 'num' and y.op == 'num' and y.a[0] != 0: return num(x.a[0] / y.a[0])
    return mk('div', x, y)

def powt(x, y):
    if x.op == 'num' and y.op == 'num' and y.a[0].denominator == 1 and 0 <= y.a[0] <= 8:
        return num(x.a[0] ** int(y.a[0]))
    return mk('pow', x, y)

def lin(t):
    """linear form: dict atom->coef, const"""
    if t.op == 'num': return {}, t.a[0]
    if t.op == 'add':
        a, c = lin(t.a[0]); b, d = lin(t.a[1])
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + v
            if r[k] == 0: del r[k]
        return r, c + d
    if t.op == 'neg':
        a, c = lin(t.a[0])
        return {k: -v for k, v in a.items()}, -c
    if t.op == 'mul':
        a, c = lin(t.a[0]); b, d = lin(t.a[1])
        if not a: return {k: v * c for k, v in b.items() if v * c != 0}, c * d
        if not b: return {k: v * d for k, v in a.items() if v * d != 0}, c * d
    return {t: Fraction(1)}, Fraction(0)

def lin_sub(x, y):
    a, c = lin(x); b, d = lin(y)
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) - v
        if r[k] == 0: del r[k]
    return r, c - d

def eq(x, y):
    if x is y: return TRUE
    if x.op == 'bot' or y.op == 'bot': return BOT
    if x.op == 'ite' and not x.b:
        return ite(x.a[0], eq(x.a[1], y), eq(x.a[2], y))
    if y.op == 'ite' and not y.b:
        return ite(y.a[0], eq(x, y.a[1]), eq(x, y.a[2]))
    if x.b and y.b:
        return b_ite(x, y, bnot(y))
    if x.op == 'num' and y.op == 'num': return FALSE
    if x.op == 'str' and y.op == 'str': return FALSE
    if x.op in ('tup', 'arrlit') and x.op == y.op and len(x.a) == len(y.a):
        return band(*[eq(p, q) for p, q in zip(x.a, y.a)])
    if x.op == 'adt' and y.op == 'adt' and x.a[0] == y.a[0]:
        if x.a[1] != y.a[1]: return FALSE
        return band(*[eq(p, q) for p, q in zip(x.a[2:], y.a[2:])])
    if x.op in ('add', 'num', 'neg') or y.op in ('add', 'num', 'neg'):
        d, c = lin_sub(x, y)
        if not d: return TRUE if c == 0 else FALSE
    if (x.op == 'arr' or y.op == 'arr') and 'any' in BUILD:
        n = alen(x)
        if n is alen(y):
            if n.op == 'num': return band(*[eq(sel(x, num(k)), sel(y, num(k))) for k in range(int(n.a[0]))]) if n.a[0] <= 8 else mk('eq', *((x, y) if x.id < y.id else (y, x)))
            v = fresh()
            return bnot(BUILD['any'](n, lam(v, bnot(eq(sel(x, v), sel(y, v))))))
    if y.id < x.id: x, y = y, x
    return mk('eq', x, y)

def lt(x, y):
    if x is y: return FALSE
    if x.op == 'bot' or y.op == 'bot': return BOT
    if x.op == 'ite':
        return ite(x.a[0], lt(x.a[1], y), lt(x.a[2], y))
    if y.op == 'ite':
        return ite(y.a[0], lt(x, y.a[1]), lt(x, y.a[2]))
    if x.op == 'omega': return FALSE
    if y.op == 'omega': return TRUE
    d, c = lin_sub(x, y)
    if not d: return TRUE if c < 0 else FALSE
    return mk('lt', x, y)

def le(x, y):
    return bnot(lt(y, x))

# ---------------------------------------------------------------- binders
def lam(v, body):
    """lambda with canonical binder: abstract the fresh variable v in body"""
    k = body.h + 1
    return mk('lam', k, subst(body, {v: mk('bv', k)}))

def app(l, x):
    if l.op == 'lam':
        return subst(l.a[1], {mk('bv', l.a[0]): x}, bound=True)
    if l.op == 'ite':
        return ite(l.a[0], app(l.a[1], x), app(l.a[2], x))
    if l.op == 'bot':
        return BOT
    return mk('app', l, x)

_has = {}
def has(t, x):
    """does term t contain subterm x (x a leaf)"""
    if x.op == 'var':
        return x.a[0] in t.fv
    if t is x:
        return True
    k = (t, x)
    r = _has.get(k)
    if r is None:
        r = False
        for y in t.a:
            if y.__class__ is T and has(y, x):
                r = True
                break
        _has[k] = r
    return r

def subst(t, m, bound=False):
    memo = {}
    keys = list(m)
    maxh = max([v.h for v in m.values()] + [0])
    onlyvars = all(k.op == 'var' for k in keys)
    vs = frozenset(k.a[0] for k in keys if k.op == 'var')
    def go(t):
        if t in m:
            return m[t]
        r = memo.get(t)
        if r is not None:
            return r
        if onlyvars and not (t.fv & vs):
            return t
        if not t.a or not any(x.__class__ is T for x in t.a):
            return t
        if t.op == 'lam':
            if not any(has(t, k) for k in keys):
                memo[t] = t
                return t
            # the body's own binder may need renaming: open, substitute, close
            v = fresh()
            body = subst(t.a[1], {mk('bv', t.a[0]): v})
            r = lam(v, subst(body, m))
            memo[t] = r
            return r
        na = [go(x) if x.__class__ is T else x for x in t.a]
        same = True
        for p, q in zip(na, t.a):
            if p is not q:
                same = False
                break
        r = t if same else build(t.op, *na)
        memo[t] = r
        return r
    return go(t)

def replace_terms(t, m):
    """replace arbitrary (closed) subterms"""
    memo = {}
    def go(t):
        if t in m: return m[t]
        r = memo.get(t)
        if r is not None: return r
        if not any(x.__class__ is T for x in t.a): return t
        if t.op == 'lam':
            v = fresh()
            b = app(t, v)
            nb = go(b)
            r = t if nb is b else lam(v, nb)
        else:
            na = [go(x) if x.__class__ is T else x for x in t.a]
            r = t if all(p is q for p, q in zip(na, t.a)) else build(t.op, *na)
        memo[t] = r
        return r
    return go(t)

# ---------------------------------------------------------------- aggregates
def arr(n, l):
    return mk('arr', n, l)

def arrlit(*xs):
    return mk('arrlit', *xs)

SHAPES = {}     # array-valued variables introduced by the loop analysis -> extents
def dims_of_array(a):
    out = []
    while True:
        if a.op == 'arr': out.append(a.a[0]); a = app(a.a[1], fresh())
        elif a.op == 'arrlit' and a.a: out.append(num(len(a.a))); a = a.a[0]
        elif a.op == 'upd': a = a.a[0]
        elif a.op == 'ite': a = a.a[1]
        elif a.op in ('var', 'sel'):
            x = a; d = 0
            while x.op == 'sel': x = x.a[0]; d += 1
            if x in SHAPES: out.extend(SHAPES[x][d:])
            return tuple(out)
        else: return tuple(out)

def alen(a):
    x = a; d = 0
    while x.op == 'sel': x = x.a[0]; d += 1
    if x in SHAPES and d < len(SHAPES[x]): return SHAPES[x][d]
    if a.op == 'arr': return a.a[0]
    if a.op == 'arrlit': return num(len(a.a))
    if a.op == 'upd': return alen(a.a[0])
    if a.op == 'ite': return ite(a.a[0], alen(a.a[1]), alen(a.a[2]))
    if a.op == 'push': return add(alen(a.a[0]), ONE)
    if a.op == 'bot': return BOT
    return mk('alen', a)

def sel(a, i):
    if a.op == 'arr': return app(a.a[1], i)
    if a.op == 'bot' or i.op == 'bot': return BOT
    if a.op == 'ite': return ite(a.a[0], sel(a.a[1], i), sel(a.a[2], i))
    if i.op == 'ite': return ite(i.a[0], sel(a, i.a[1]), sel(a, i.a[2]))
    if a.op == 'arrlit':
        if i.op == 'num':
            k = i.a[0]
            if k.denominator == 1 and 0 <= k < len(a.a): return a.a[int(k)]
            return BOT
        if not a.a: return BOT
        r = a.a[-1]
        for k in range(len(a.a) - 2, -1, -1):
            r = ite(eq(i, num(k)), a.a[k], r)
        return r
    if a.op == 'push': return ite(lt(i, alen(a.a[0])), sel(a.a[0], i), a.a[1])
    if a.op == 'upd':
        return ite(eq(i, a.a[1]), a.a[2], sel(a.a[0], i))
    if a.op == 'unk': return unk('sel of ' + str(a.a[0]))
    return mk('sel', a, i)

def upd(a, i, v):
    if a.op == 'arrlit' and i.op == 'num' and 0 <= i.a[0] < len(a.a):
        xs = list(a.a); xs[int(i.a[0])] = v
        return arrlit(*xs)
    if a.op == 'upd' and a.a[1] is i:
        return upd(a.a[0], i, v)
    if a.op == 'bot': return BOT
    # updating with its own content is the identity
    if v is sel(a, i): return a
    return mk('upd', a, i, v)

def field(v, variant, i):
    """field i of variant (index) of an aggregate value"""
    op = v.op
    if op == 'adt':
        if variant is not None and v.a[1] != variant: return BOT
        return v.a[2 + i]
    if op == 'tup': return v.a[i]
    if op == 'clo': return v.a[2 + i]
    if op == 'ite': return ite(v.a[0], field(v.a[1], variant, i), field(v.a[2], variant, i))
    if op == 'bot': return BOT
    if op == 'unk': return v
    return mk('fld', v, variant or 0, i)

def setfield(v, variant, i, x):
    op = v.op
    if op in ('adt', 'clo'):
        if op == 'adt' and variant is not None and v.a[1] != variant: return BOT
        xs = list(v.a); xs[2 + i] = x
        return mk(op, *xs)
    if op == 'tup':
        xs = list(v.a); xs[i] = x
        return mk('tup', *xs)
    if op == 'ite': return ite(v.a[0], setfield(v.a[1], variant, i, x), setfield(v.a[2], variant, i, x))
    if op == 'bot': return BOT
    if op == 'unk': return v
    return mk('setf', v, variant or 0, i, x)

def variant_is(v, k, n):
    """boolean: v (an enum with n variants) is variant number k"""
    if v.op == 'adt': return TRUE if v.a[1] == k else FALSE
    if v.op == 'ite': return b_ite(v.a[0], variant_is(v.a[1], k, n), variant_is(v.a[2], k, n))
    if v.op == 'bot': return FALSE
    if n == 1: return TRUE
    # canonical encoding: is0 / else is1 / else ...
    r = TRUE if k == n - 1 else mk('isvar', v, k)
    for j in range(k - 1, -1, -1):
        r = b_ite(mk('isvar', v, j), FALSE, r)
    return r

def bsum(n, l):
    return mk('sum', n, l)
def bprod(n, l):
    return mk('prod', n, l)

def minus1(x): return add(x, num(-1))

BUILD = {
    'ite': ite, 'add': add, 'neg': neg, 'mul': mul, 'div': div, 'pow': powt, 'eq': eq, 'lt': lt,
    'sel': sel, 'upd': upd, 'fld': field, 'setf': setfield, 'app': app, 'alen': alen,
}

def isvar_build(v, k):
    if v.op in ('adt', 'ite', 'bot'):
        # only used after substitution of an opaque enum by a known one
        if v.op == 'adt': return TRUE if v.a[1] == k else FALSE
        if v.op == 'bot': return FALSE
        return b_ite(v.a[0], isvar_build(v.a[1], k), isvar_build(v.a[2], k))
    return mk('isvar', v, k)
BUILD['isvar'] = isvar_build
EXTRA = {}

def build(op, *a):
    f = BUILD.get(op)
    if f is None:
        return mk(op, *a)
    return f(*a)

# ---------------------------------------------------------------- traversal helpers
def subterms(t, into_lam=True):
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        yield x
        if x.op == 'lam' and not into_lam: continue
        for y in x.a:
            if y.__class__ is T: st.append(y)

_unkm = {}
def find_unk(t):
    r = _unkm.get(t)
    if r is None:
        r = False
        for x in subterms(t):
            if x.op == 'unk':
                r = x
                break
        _unkm[t] = r
    return r or None

def restrict(t, m):
    """t with atoms fixed: m atom -> bool"""
    return subst(t, {a: (TRUE if v else FALSE) for a, v in m.items()})

# ---------------------------------------------------------------- printing
def short(name):
    return str(name).split('::')[-1] if '::' in str(name) else str(name)

def show(t, d=0):
    if d > 40: return '…'
    s = lambda x: show(x, d + 1) if x.__class__ is T else (str(short(x)) if isinstance(x, (str, int)) else ('' if isinstance(x, tuple) else str(x)))
    o = t.op; a = t.a
    if o == 'num': return str(a[0])
    if o == 'str': return repr(a[0])
    if o == 'sym': return '.'.join(s(x) for x in a)
    if o == 'var': return 'v%d' % a[0]
    if o == 'bv': return 'b%d' % a[0]
    if o == 'lam': return '(λb%d. %s)' % (a[0], s(a[1]))
    if o == 'ite': return '(%s ? %s : %s)' % (s(a[0]), s(a[1]), s(a[2]))
    if o in ('add', 'mul', 'div'): return '(%s %s %s)' % (s(a[0]), {'add': '+', 'mul': '*', 'div': '/'}[o], s(a[1]))
    if o == 'neg': return '-' + s(a[0])
    if o == 'eq': return '(%s == %s)' % (s(a[0]), s(a[1]))
    if o == 'lt': return '(%s < %s)' % (s(a[0]), s(a[1]))
    if o == 'isvar': return 'is%d(%s)' % (a[1], s(a[0]))
    if o == 'sel': return '%s[%s]' % (s(a[0]), s(a[1]))
    if o == 'fld': return '%s.%s.%s' % (s(a[0]), a[1], a[2])
    if o == 'adt':
        from_names = ADTNAMES.get(a[0])
        nm = short(a[0])
        if from_names: nm = from_names[a[1]] if len(from_names) > 1 else nm
        return nm + ('(%s)' % ', '.join(s(x) for x in a[2:]) if len(a) > 2 else '')
    if o == 'tup': return '(%s)' % ', '.join(s(x) for x in a)
    if o == 'arrlit': return '[%s]' % ', '.join(s(x) for x in a)
    if o == 'arr': return '[%s; %s]' % (s(a[1]), s(a[0]))
    return '%s(%s)' % (o, ', '.join(s(x) for x in a if not isinstance(x, tuple)))

ADTNAMES = {}

def idiv(a, b):
    """quotient of two unsigned integers, rounded down"""
    if a.op == 'num' and b.op == 'num' and b is not ZERO: return num(int(a.a[0]) // int(b.a[0]))
    if b is ONE: return a
    if a.op == 'ite': return ite(a.a[0], idiv(a.a[1], b), idiv(a.a[2], b))
    return mk('idiv', a, b)
BUILD['idiv'] = idiv
