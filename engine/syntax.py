"""Checks over the textual and macro surfaces: displayed formulas, identifiers, contexts, the expression macro."""
import itertools, re
from fractions import Fraction
from terms import *
import terms as tm
from mir import *
from ana import Ana, mkval
import rigid, algebra, stdmodels as sm, text
from rigid import RAW, FULL, DIAG, SPEC
from algebra import equal, decide
from nodes import *
from misc import denote, fields_of, const_args, ident_fields, ID

EXPR = 'aegir::fmt::Expr'; PRE = 'aegir::fmt::PreWrap'; TOEXPR = 'aegir::fmt::ToExpr'; DISP = 'core::fmt::Display'; OPT = sm.OPT

# ------------------------------------------------------------------ reading a formula
class Bad(Exception): pass
class Unread(Exception): pass
PI = sym('pi'); IMAG = sym('imag'); INF = mk('inf')
FN1 = {'ln': lambda x: mk('ln', x), 'log': lambda x: mk('ln', x), 'exp': lambda x: mk('exp', x), 'erf': lambda x: mk('erf', x), 'sgn': UNARY['Sign'], 'sign': UNARY['Sign'],
       'δ': UNARY['Dirac'], 'σ': UNARY['Sigmoid'], 'Γ': lambda x: mk('gamma', x), 'ψ': lambda x: mk('digamma', x), 'lnΓ': lambda x: mk('loggamma', x), 'abs': lambda x: mk('abs', x),
       '√': lambda x: powt(x, num(Fraction(1, 2))), 'sqrt': lambda x: powt(x, num(Fraction(1, 2)))}
for a in ('sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'asin', 'acos', 'atan', 'asinh', 'acosh', 'atanh'):
    FN1[a] = (lambda a: lambda x: mk(a, x))(a)
    if a[0] == 'a': FN1['arc' + a[1:]] = FN1[a]; FN1['ar' + a[1:]] = FN1[a]
CONSTS = {'π': PI, '∞': INF, '𝑒': mk('exp', ONE), 'e': mk('exp', ONE), '𝑖': IMAG, 'i': IMAG, '½': num(Fraction(1, 2)), '¼': num(Fraction(1, 4)), '⅓': num(Fraction(1, 3))}
MULS = {'∘': None, '·': None, '*': None, '×': None, '⊙': None, '/': 'div', '⊗': 0, ':': 2}

def tokens(parts):
    """parts: str (literal) or ('atom', term)"""
    out = []
    for p in parts:
        if not isinstance(p, str): out.append(p); continue
        i = 0
        while i < len(p):
            ch = p[i]
            if ch.isspace(): i += 1; continue
            if p.startswith('Σ_i', i): out.append(('name', 'Σ')); i += 3; continue
            m = re.match(r'\d+(\.\d+)?', p[i:])
            if m and ch.isascii(): out.append(('num', Fraction(m.group(0)))); i += m.end(); continue
            m = re.match(r'[^\W\d_]+', p[i:]) if ch not in CONSTS or ch in 'ei' else None
            if m and m.group(0) not in CONSTS:
                w = m.group(0)
                # a run of letters: constants may be juxtaposed in front of each other (iπ)
                k = next((j for j in range(len(w)) if w[j] in CONSTS and w[j] not in 'ei'), None)
                if k: w = w[:k]
                out.append(('name', w)); i += len(w); continue
            if ch in CONSTS: out.append(('const', CONSTS[ch])); i += 1; continue
            if p.startswith('_i', i): out.append(('op', '_i')); i += 2; continue
            if ch == 'Σ': out.append(('name', 'Σ')); i += 1; continue
            out.append(('op', ch)); i += 1
    return out

class Parser:
    def __init__(self, toks): self.t = toks; self.i = 0
    def peek(self): return self.t[self.i] if self.i < len(self.t) else ('end', '')
    def isop(self, c): return self.peek() == ('op', c)
    def eat(self, c):
        if not self.isop(c): raise Bad('expected %s before %s' % (c, self.show()))
        self.i += 1
    def show(self): return repr(self.peek()[1]) if self.peek()[0] != 'end' else 'the end'
    def all(self):
        v = self.sum()
        if self.peek()[0] != 'end': raise Bad('unexpected %s' % self.show())
        return v
    def only_primary(self):
        v = self.primary()
        if self.peek()[0] != 'end': raise Bad('not a self-contained operand: %s follows' % self.show())
        return v
    def sum(self):
        v = self.term()
        while self.isop('+') or self.isop('-') or self.isop('−'):
            o = self.peek()[1]; self.i += 1
            w = self.term(); v = add(v, w) if o == '+' else sub(v, w)
        return v
    def term(self):
        v = self.unary()
        while True:
            k, c = self.peek()
            if k == 'op' and c in MULS:
                self.i += 1; w = self.unary(); how = MULS[c]
                v = div(v, w) if how == 'div' else mul(v, w) if how is None else mk('ctr', num(how), v, w)
            elif k == 'const' or k == 'name' and self.i and self.t[self.i - 1][0] in ('num', 'const'):
                v = mul(v, self.unary())
            else: return v
    def unary(self):
        if self.isop('-') or self.isop('−'): self.i += 1; return neg(self.unary())
        return self.power()
    def power(self):
        v = self.primary()
        if self.isop('^'):
            self.i += 1; w = self.unary()
            return mk('exp', w) if v is mk('exp', ONE) else powt(v, w)
        return v
    def primary(self):
        k, c = self.peek()
        if k == 'num': self.i += 1; return num(c)
        if k == 'const': self.i += 1; return c
        if k == 'atom': self.i += 1; return c
        if k == 'name':
            self.i += 1
            if c == 'Σ':
                self.eat('('); v = self.sum(); self.eat(')')
                if self.isop('_i'): self.i += 1
                return mk('SUM', v)
            if c not in FN1: raise Bad('%r is not the name of a function' % c)
            self.eat('('); v = self.sum(); self.eat(')')
            return FN1[c](v)
        if self.isop('('): self.i += 1; v = self.sum(); self.eat(')'); return v
        if self.isop('|'): self.i += 1; v = self.sum(); self.eat('|'); return mk('abs', v)
        if self.isop('⟨'):
            self.i += 1; v = self.sum(); self.eat(','); w = self.sum(); self.eat('⟩'); return mk('ctr', ONE, v, w)
        if k == 'end': raise Bad('an operand is missing at the end')
        if k == 'op' and c not in '+-*/^,)|⟩' and c not in MULS: raise Unread('symbol %r' % c)
        raise Bad('an operand is missing before %s' % self.show())

HALFPI = mul(num(Fraction(1, 2)), PI)
FOLD = {('sin', 0): ZERO, ('cos', 0): ONE, ('tan', 0): ZERO, ('sinh', 0): ZERO, ('cosh', 0): ONE, ('tanh', 0): ZERO, ('asin', 0): ZERO, ('asin', 1): HALFPI, ('acos', 0): HALFPI,
        ('acos', 1): ZERO, ('atan', 0): ZERO, ('atan', 1): mul(num(Fraction(1, 4)), PI), ('asinh', 0): ZERO, ('acosh', 0): mul(IMAG, HALFPI), ('acosh', 1): ZERO, ('atanh', 0): ZERO, ('atanh', 1): INF,
        ('exp', 0): ONE, ('ln', 1): ZERO, ('ln', 0): neg(INF), ('gamma', 1): ONE, ('gamma', 0): INF, ('loggamma', 0): INF, ('loggamma', 1): ZERO, ('digamma', 0): INF, ('erf', 0): ZERO,
        ('abs', 0): ZERO, ('abs', 1): ONE, ('signum', 1): ONE, ('log2', 1): ZERO}
def fold(t):
    """values of the elementary functions at 0 and 1, and the conventions x/0 = ∞, 0^x = 0"""
    memo = {}
    def go(t):
        r = memo.get(t)
        if r is None: r = memo[t] = go_(t)
        return r
    def go_(t):
        if t.op == 'lam' or not t.a: return t
        a = [go(x) if x.__class__ is tm.T else x for x in t.a]
        if len(a) == 1 and a[0].__class__ is tm.T and a[0].op == 'num' and (t.op, a[0].a[0]) in FOLD: return FOLD[(t.op, a[0].a[0])]
        if t.op == 'div' and a[1] is ZERO: return INF
        if t.op == 'div' and a[0] is ZERO: return ZERO
        if t.op == 'pow':
            if a[1] is ZERO: return ONE
            if a[0] is ZERO: return ZERO
            if a[0] is ONE: return ONE
            if a[1] is ONE: return a[0]
        if t.op == 'ctr':
            if a[1] is ZERO or a[2] is ZERO: return ZERO
            if a[1] is ONE: return a[2]
            if a[2] is ONE: return a[1]
        return tm.build(t.op, *a) if any(x is not y for x, y in zip(a, t.a)) else t
    return go(algebra.canon(go(t)))

# child texts: value and spelling by outermost operator
def spellings(k):
    p, q = mk('sval', sym('p', k)), mk('sval', sym('q', k))
    P, Q = ('atom', p), ('atom', q)
    return {'a sum': ([P, ' + ', Q], add(p, q)), 'a difference': ([P, ' - ', Q], sub(p, q)), 'a product': ([P, ' ∘ ', Q], mul(p, q)), 'a quotient': ([P, ' / ', Q], div(p, q)),
            'a power': ([P, '^', Q], powt(p, q)), 'a negation': (['-', P], neg(p))}

class Kid:
    """what an operand displays as: its ToExpr value, spellings and value"""
    def __init__(self, k, mode):
        self.k = k; self.mode = mode; self.atom = mk('ktext', k)
        if mode == 'zero': self.expr = mk('adt', EXPR, 0); self.views = [('0', ['0'], ZERO)]
        elif mode == 'one': self.expr = mk('adt', EXPR, 1); self.views = [('1', ['1'], ONE)]
        else:
            w = mode == 'compound'
            self.expr = mk('adt', EXPR, 2, mk('adt', PRE, 0, self.atom, TRUE if w else FALSE))
            v = mk('sval', k)
            self.views = [('a symbol', [('atom', v)], v)]
            if w: self.views = [(n, ts, x) for n, (ts, x) in spellings(k).items()] + self.views

def flat(t):
    """alternatives of a string normal form: [[piece]]"""
    if t.op == 'ite': return flat(t.a[1]) + flat(t.a[2])
    if t.op == 'scat':
        out = [[]]
        for p in t.a: out = [x + y for x in out for y in flat(p)]
        return out
    return [[t]]

def c20(A, rep, tier):
    n = 0
    tims = {im.targs[0]: im for im in A.P.by_trait.get(TOEXPR, ())}
    for t, im in tims.items():
        if t[0] != 'adt' or not t[1].startswith('aegir::'): continue
        n += formula(A, rep, im, 'to_expr')
    m = 0
    for im in A.P.by_trait.get(DISP, ()):
        t = im.targs[0]
        if t[0] == 'adt' and A.impl_for_adt(FN, t[1]): m += 1; formula(A, rep, im, 'fmt')
    rep.floor('operators with a displayed formula', n, 30)
    rep.floor('displayed nodes', m, 30)
    # the bracketing helper itself
    for im in A.P.impls:
        if im.self[0] == 'adt' and im.self[1] == PRE and 'to_safe_string' in im.fns:
            for w in (True, False):
                tx = sym('text')
                l, r_ = string('('), string(')')
                r = A.run(im.fns['to_safe_string'], ['self', 'l', 'r'], concrete={0: mk('adt', PRE, 0, tx, TRUE if w else FALSE), 1: mk('chr', '('), 2: mk('chr', ')')})
                rep.eq('PreWrap::to_safe_string[needs_wrap=%s]' % w, equal(r.ret, text.cat(l, tx, r_) if w else tx), im.fns['to_safe_string'], 'brackets exactly when needed')
    for im in A.P.by_trait.get(DISP, ()):
        if im.targs[0] in (('adt', PRE, ()), ('adt', EXPR, ())):
            for key, v, want in (('PreWrap', mk('adt', PRE, 0, sym('text'), sym('w', 'b')), sym('text')),) if im.targs[0][1] == PRE else (
                    ('Expr::Zero', mk('adt', EXPR, 0), string('0')), ('Expr::One', mk('adt', EXPR, 1), string('1')), ('Expr::Text', mk('adt', EXPR, 2, mk('adt', PRE, 0, sym('text'), sym('w', 'b'))), sym('text'))):
                r = A.run(im.fns['fmt'], ['self', 'f'], concrete={0: v})
                rep.eq('%s display' % key, equal(r.out(1), text.cat(sym('f'), want)), im.fns['fmt'], 'an expression displays its literal or its text')

def formula(A, rep, im, what):
    t = im.targs[0]
    fim = A.impl_for_adt(FN, t[1])
    if not fim: return 0
    nd = Node(A, fim[0]); fid = im.fns[what]
    name = ty_show(t) if t[1].endswith('Contract') else nd.name
    key0 = name if what == 'to_expr' else name + ' Display'
    selfv = A.run(fid, ['self']).arg(0)
    if nd.name in ('Variable', 'Constant', 'VariableAdjoint', 'ConstantAdjoint'): return source_formula(A, rep, im, what, nd, key0)
    kids = nd.kids
    cargs = const_args(A, selfv, t)
    f = fold_value(A, nd, selfv, t, cargs)
    modes = ('zero', 'one', 'atom', 'compound')
    for combo in itertools.product(modes, repeat=len(kids)):
        ks = [Kid(k, mo) for k, mo in zip(kids, combo)]
        forms = {('expr', k.k): k.expr for k in ks}
        r = A.run(fid, ['self', 'f'], forms=forms)
        key = '%s(%s)' % (key0, ', '.join(combo))
        if undefined_point(nd.name, combo): continue
        outs = [r.ret] if what == 'to_expr' else [r.out(1)]
        for x in leaves_of(outs[0]):
            check_text(A, rep, key, fid, nd, f, ks, x, what)
    return 1

def undefined_point(name, combo):
    return (name, combo) in {('Div', ('zero', 'zero'))}

def fold_value(A, nd, selfv, t, cargs):
    if nd.name == 'Sum': return mk('SUM', mk('sval', nd.kids[0]))
    if nd.name == 'Power': return powt(mk('sval', nd.kids[0]), mk('sval', nd.kids[1]))
    if nd.name in UNARY: return UNARY[nd.name](mk('sval', nd.kids[0]))
    if nd.name in BINARY: return BINARY[nd.name](*[mk('sval', k) for k in nd.kids])
    if nd.name == 'Contract': return mk('ctr', cargs.get(sym('const', 'AXES'), sym('const', 'AXES')), *[mk('sval', k) for k in nd.kids])
    if nd.name == 'Cached': return mk('sval', nd.kids[0])
    v = denote(A, selfv, t)
    return subst(v, cargs)

def check_text(A, rep, key, fid, nd, f, ks, x, what):
    rule = 'the displayed formula denotes the function'
    if algebra.find_unk(x): rep.add(key, '?', fid, 'text not analysed: %s' % show(x)[:160], rule); return
    wrap = True
    if what == 'to_expr':
        for k in ks:
            if x is mk('toexpr', k.k): x = k.expr
        if x.op != 'adt' or x.a[0] != EXPR: rep.add(key, '?', fid, 'expression not analysed: %s' % show(x)[:160], rule); return
        if x.a[1] == 0: alts = [([string('0')], False)]
        elif x.a[1] == 1: alts = [([string('1')], False)]
        else:
            p = x.a[2]
            if p.op != 'adt': rep.add(key, '?', fid, 'expression not analysed: %s' % show(x)[:160], rule); return
            w = p.a[3]
            alts = [(a, not (w is FALSE)) for a in flat(p.a[2])]
            if w not in (TRUE, FALSE): alts = [(a, False) for a, _ in alts]
    else:
        alts = [(a[1:] if a and a[0] is sym('f') else a, True) for a in flat(x)]
    for ps, wrap in alts:
        for views in itertools.product(*[k.views for k in ks]):
            rep_ = {k.atom: v for k, v in zip(ks, views)}
            parts = []; und = None
            for p in ps:
                if p.op == 'str': parts.append(p.a[0])
                elif p in rep_: parts += rep_[p][1]
                elif p.op == 'disp' and any(p.a[1] is k.k for k in ks):
                    k = next(i for i, k in enumerate(ks) if p.a[1] is k.k); parts += views[k][1]
                else: und = p
            if und is not None: rep.add(key, '?', fid, 'text not analysed: %s' % show(und)[:100], rule); continue
            kk = key + ('' if not any(k.mode == 'compound' for k in ks) else ' with %s' % ', '.join(v[0] for v in views))
            shown = ''.join(p if isinstance(p, str) else show(p[1].a[0] if p[1].op == 'sval' else p[1]) for p in parts)
            try:
                P = Parser(tokens(parts))
                got = P.all()
                if not wrap:
                    P = Parser(tokens(parts)); P.only_primary()
            except Bad as e: rep.add(kk, 'no', fid, 'displays "%s": %s' % (shown, e), rule + ', bracketed where it would be regrouped'); continue
            except Unread as e: rep.add(kk, '?', fid, 'displays "%s": %s' % (shown, e), rule); continue
            want = subst(f, {mk('sval', k.k): v[2] for k, v in zip(ks, views)})
            r = equal(fold(got), fold(want))
            if r[0] != 'yes' and want.op == 'ite': r = min([r] + [equal(fold(got), fold(b)) for b in want.a[1:] if b.op != 'num'], key=lambda q: ('yes', '?', 'no').index(q[0]))
            rep.add(kk, r[0], fid, '' if r[0] == 'yes' else 'displays "%s" which reads as %s instead of %s' % (shown, show(fold(got))[:120], show(fold(want))[:120]), rule)

def source_formula(A, rep, im, what, nd, key0):
    fid = im.fns[what]
    r = A.run(fid, ['self', 'f'])
    x = r.ret if what == 'to_expr' else r.out(1)
    rule = 'a source displays its identifier, its constant, or the identity/zero it stands for'
    want = {'Variable': mk('disp', 'display', sym('self.0')), 'Constant': mk('disp', 'display', sym('self.0'))}.get(nd.name)
    for same in ((True, False) if nd.name == 'VariableAdjoint' else (None,)):
        y = x
        if same is not None:
            v, t = ident_fields(A, nd)
            y = assume(x, [(eq(v, t), same), (eq(t, v), same)]); want = string('1' if same else '0')
        if nd.name == 'ConstantAdjoint': want = string('0')
        key = key0 + ('' if same is None else ' same identifier' if same else ' other identifier')
        for z in leaves_of(y):
            w = None
            if what == 'to_expr':
                if z.op == 'adt' and z.a[0] == EXPR: z, w = (string('0'), FALSE) if z.a[1] == 0 else (string('1'), FALSE) if z.a[1] == 1 else (field(z.a[2], None, 0), field(z.a[2], None, 1))
            else: w = TRUE
            full = want if what == 'to_expr' else text.cat(sym('f'), want)
            for a in leaves_of(z):
                st = 'yes' if a is full else '?' if algebra.find_unk(a) or w is None else 'no'
                rep.add(key, st, fid, '' if st == 'yes' else 'displays %s' % show(a)[:160], rule)
            if nd.name == 'Constant' and what == 'to_expr' and w is not None:
                neg_ = [x for x in subterms(w) if x.op == 'batom' and x.a[0] == 'startswith']
                st = 'yes' if w is TRUE or (neg_ and assume(w, [(x, True) for x in neg_]) is TRUE) else '?' if algebra.find_unk(w) else 'no'
                rep.add(key + ' sign', st, fid, '' if st == 'yes' else 'a negative constant is displayed without brackets as an operand', 'bracketed where it would be regrouped')
    return 1

# ------------------------------------------------------------------ identifiers
import unicodedata
FIXIDS = {'X': 'x', 'Y': 'y', 'Z': 'zed', 'Braced': '{{b}}', 'Spaced': 'a b', 'Uni': '\U0001D4D0', 'Plain': 'Plain', 'W': 'W', 'Dup': 'x'}
GREEK = 'Alpha Beta Gamma Delta Epsilon Zeta Eta Theta Iota Kappa Lambda Mu Nu Xi Omicron Pi Rho Sigma Tau Upsilon Phi Chi Psi Omega'.split()

def letter(name):
    if len(name) == 1: return name.lower()
    if name in GREEK: return unicodedata.lookup('GREEK SMALL LETTER ' + {'Lambda': 'LAMDA'}.get(name, name.upper()))
    return None

def c21(A, rep, tier):
    import idgen
    gen = {'fixtures::idents_gen::' + m: {n: idgen.expected(f, n, y) for n, f, y in l} for m, l in idgen.id_modules(rep.repo).items()}
    gen['fixtures::contexts_gen'] = {n: n for n in idgen.IDS}
    idents = [im for im in A.P.by_trait.get(ID, ()) if im.targs[0][0] == 'adt']
    groups = {}; shown = {}
    for im in idents:
        d = im.targs[0][1]; mod, name = d.rsplit('::', 1)
        groups.setdefault(mod, []).append(im)
        a = A.P.adts.get(d); where = d
        st = 'yes' if a and not a.get('enum') and len(a['variants'][0][1]) == 0 else 'no' if a else '?'
        rep.add('%s carries no data' % d, st, where, 'identifier type has fields' if st == 'no' else '', 'an identifier is a distinct zero-sized type')
        fm = A.impl_for_adt(DISP, d)
        if not fm: rep.add('%s display' % d, '?', where, 'no Display impl found', ''); continue
        r = A.run(fm[0].fns['fmt'], ['self', 'f'])
        want = FIXIDS.get(name) if mod == 'fixtures::idents' else gen[mod].get(name) if mod in gen else letter(name) if mod == 'aegir::ids' else None
        out = r.out(1)
        if out is not None and out.op == 'scat' and len(out.a) == 2 and out.a[0] is sym('f') and out.a[1].op == 'str': shown.setdefault(mod, []).append((out.a[1].a[0], d))
        if want is not None:
            full = text.cat(sym('f'), string(want))
            st = 'yes' if out is full else '?' if out is None or algebra.find_unk(out) else 'no'
            rep.add('%s display' % d, st, fm[0].fns['fmt'], '' if st == 'yes' else 'displays %s instead of "%s"' % (show(out)[:80] if out is not None else None, want), 'an identifier displays exactly the symbol declared for it, its own name without one, its own letter when predefined')
        for f in ('into_var',):
            g = im.fns.get(f) or 'aegir::Identifier::into_var'
            if im.fns.get(f): variable_of(A, rep, g, d)
    variable_of(A, rep, 'aegir::Identifier::into_var', 'Identifier')
    byt = {}
    for im in A.P.by_trait.get('core::cmp::PartialEq', ()):
        if im.targs[0][0] == 'adt' and im.targs[1][0] == 'adt': byt[(im.targs[0][1], im.targs[1][1])] = im
    for mod, ims in groups.items():
        names = [im.targs[0][1] for im in ims]
        for a in names:
            for b in names:
                im = byt.get((a, b))
                if im is None: rep.add('%s == %s' % (a, b), 'no', a, 'identifiers declared together cannot be compared', 'identifiers declared together are comparable'); continue
                r = A.run(im.fns['eq'], ['self', 'other'])
                rep.eq('%s == %s' % (a, b), equal(r.ret, TRUE if a == b else FALSE), im.fns['eq'], 'an identifier equals itself and nothing else')
                if 'ne' in im.fns:
                    r = A.run(im.fns['ne'], ['self', 'other'])
                    rep.eq('%s != %s' % (a, b), equal(r.ret, FALSE if a == b else TRUE), im.fns['ne'], 'an identifier equals itself and nothing else')
    for mod, l in shown.items():
        if mod != 'aegir::ids': continue
        seen = {}
        for s, d in l:
            rep.add('%s alone displays "%s"' % (d, s), 'no' if s in seen else 'yes', d, 'displays like %s' % seen[s] if s in seen else '', 'no two predefined identifiers display alike')
            seen[s] = d
    names = {im.targs[0][1] for im in idents}
    for d in ['fixtures::idents::' + n for n in FIXIDS] + ['%s::%s' % (m, n) for m, l in gen.items() for n in l if m != 'fixtures::contexts_gen']:
        n = d.split('::', 1)[1]
        rep.add('ids! declares %s' % n, 'yes' if d in names else 'no', d, '' if d in names else 'the macro produced no such identifier', 'every declared identifier exists')
    rep.floor('identifier types', len(idents), 40)
    # identity of variables: equality of sources and the delta adjoint rest on this equality
    for im in idents:
        cl = A.impl_for_adt('core::clone::Clone', im.targs[0][1])
        for c in cl:
            if 'clone' in c.fns:
                r = A.run(c.fns['clone'], ['self'])
                rep.add('%s clone' % im.targs[0][1], 'yes' if r.ret.op == 'adt' and r.ret.a[0] == im.targs[0][1] or r.ret is r.arg(0) else '?', c.fns['clone'], '', 'copies are the same identifier')

def variable_of(A, rep, g, d):
    if g not in A.P.fns: rep.add('%s into_var' % d, '?', g, 'no body', ''); return
    r = A.run(g, ['self'])
    st = 'yes' if r.ret.op == 'adt' and r.ret.a[0].endswith('::Variable') and r.ret.a[2] is r.arg(0) else '?' if algebra.find_unk(r.ret) else 'no'
    rep.add('%s into_var' % d, st, g, '' if st == 'yes' else 'returns %s' % show(r.ret)[:100], 'an identifier turns into the variable carrying it')

# ------------------------------------------------------------------ contexts
CONTEXTS = {'Derived': {'X': ('fst', 0), 'Y': ('snd', 0), 'Z': ('slot', 1), 'Plain': ('slot2', 1), 'W': ('last', 0)},
            'Bounded': {'X': ('x', 0), 'Y': ('y', 0)},
            'Concrete': {'X': ('x', 0), 'Y': ('y', 0), 'W': ('w', 0), 'Z': ('z', 1)},
            'Typed': {'X': ('x', 0), 'Y': ('y', 0), 'Z': ('z', 1), 'Plain': ('p', 1), 'W': ('w', 0)},
            'Single': {'Y': ('only', 0)}, 'Caches': {'X': ('a', 1), 'Y': ('b', 1)},
            'anon::Ctx': {'X': ('_x', 0), 'Y': ('_y', 0), 'W': ('_w', 0)}, 'anon_swapped::Ctx': {'X': ('_x', 0), 'Y': ('_y', 0)}}
ANON = {'anon': {'_x': 0, '_y': 1, '_w': 2}, 'anon_swapped': {'_x': 0, '_y': 1}}
READ, WRITE = 'aegir::Read', 'aegir::Write'

def c08(A, rep, tier):
    n = 0
    import idgen
    pre = 'fixtures::contexts::'; pg = 'fixtures::contexts_gen::'
    decls = {pre + c: d for c, d in CONTEXTS.items()}; anon = {pre + c: d for c, d in ANON.items()}
    for name, route, fs in idgen.contexts():
        decls[pg + name + ('::Ctx' if route == 'A' else '')] = {x: (f, int(k == 'k')) for f, k, x in fs if x is not None}
        if route == 'A': anon[pg + name] = {f: i for i, (f, _, _) in enumerate(fs)}
    def ctx_impls(tr, adt): return {im.targs[1][1].rsplit('::', 1)[1]: im for im in A.impl_for_adt(tr, adt) if im.targs[1][0] == 'adt'}
    for adt, decl in decls.items():
        cname = adt.split('::', 2)[2] if adt.startswith(pre) else adt.split('::', 1)[1]
        a = A.P.adts.get(adt)
        if not a: rep.add('%s exists' % cname, 'no', adt, 'no such context type was generated', 'the macros generate the declared context'); continue
        fields = [f[0] for f in a['variants'][0][1]]
        rd, wr = ctx_impls(READ, adt), ctx_impls(WRITE, adt)
        for extra in sorted((set(rd) | set(wr)) - set(decl)):
            rep.add('%s reads %s' % (cname, extra), 'no', adt, 'identifier was not declared', 'exactly the declared identifiers are bound')
        for ident, (fname, cache) in decl.items():
            key = '%s[%s]' % (cname, ident)
            if ident not in rd or ident not in wr:
                rep.add(key, 'no', adt, 'no Read/Write impl for a declared identifier', 'every declared identifier can be read and written'); continue
            if fname not in fields: rep.add(key, '?', adt, 'field %s not found among %s' % (fname, fields), ''); continue
            i = fields.index(fname); n += 1
            R, W = rd[ident], wr[ident]
            fty = tup(a['variants'][0][1][i][1])
            for f in ('read', 'read_spec', 'read_shape'):
                fid = R.fns.get(f)
                if fid is None: rep.add('%s %s' % (key, f), 'yes', READ, '', 'provided by the trait in terms of the plain read'); continue
                r = A.run(fid, ['self', 'ident'])
                fv = field(r.arg(0), None, i)
                held = lambda v: v if f == 'read' else mk('adt', SPEC, RAW, v) if f == 'read_spec' else shape_term(A, r.ip, fty, v, cache)
                want = ite(variant_is(fv, 0, 2), mk('adt', OPT, 0), mk('adt', OPT, 1, held(field(fv, 1, 0)))) if cache else mk('adt', OPT, 1, held(fv))
                got = rigid.leafmap(r.ret, lambda x: densify(r.ip, x)) if f == 'read_spec' else r.ret
                if f == 'read_spec': want = rigid.leafmap(want, lambda x: densify(r.ip, x))
                rep.eq('%s %s' % (key, f), equal(got, want), fid, 'reading returns the buffer of the field declared for the identifier, absent when the slot was never filled')
            for f in ('write', 'write_spec'):
                fid = W.fns.get(f)
                if not fid:
                    if f == 'write': rep.add('%s write' % key, '?', adt, 'no write body', '')
                    continue
                r = A.run(fid, ['self', 'ident', 'value'])
                before, after, val = r.arg(0), r.out(0), r.arg(2)
                for j, fn_ in enumerate(fields):
                    want = field(before, None, j)
                    if j == i: want = mk('adt', OPT, 1, val) if cache else val
                    if f == 'write_spec' and j == i: want = mk('adt', OPT, 1, rigid.dense(r.ip, val)) if cache else rigid.dense(r.ip, val)
                    rep.eq('%s %s leaves %s' % (key, f, fn_) if j != i else '%s %s' % (key, f), equal(field(after, None, j), want), fid,
                           'writing replaces exactly the declared buffer' if j == i else 'writing leaves the other fields as they were')
        for tr, f in (('core::convert::AsRef', 'as_ref'), ('core::convert::AsMut', 'as_mut')):
            for im in A.impl_for_adt(tr, adt):
                r = A.run(im.fns[f], ['self'])
                ok = r.ret.op == 'ref' and r.ret.a[0] == ('arg', 0) and r.out(0) is r.arg(0) or r.ret.op == 'refv' and r.ret.a[0] is r.arg(0)
                rep.add('%s %s' % (cname, f), 'yes' if ok else '?' if algebra.find_unk(r.ret) else 'no', im.fns[f], '' if ok else 'returns %s' % show(r.ret)[:100], 'a context used by reference is the context itself')
    for fid, m in anon.items():
        fn_ = fid.split('::', 2)[2] if fid.startswith(pre) else fid.split('::', 1)[1]
        if fid not in A.P.fns: rep.add('ctx! in %s' % fn_, '?', fid, 'not found', ''); continue
        r = A.run(fid)
        a = A.P.adts.get(fid + '::Ctx')
        if a is None or r.ret.op != 'adt': rep.add('ctx! in %s' % fn_, '?', fid, 'context value not analysed: %s' % show(r.ret)[:80], ''); continue
        fields = [f[0] for f in a['variants'][0][1]]
        for f, k in m.items():
            rep.eq('ctx! in %s: %s' % (fn_, f), equal(field(r.ret, None, fields.index(f)), r.arg(k)), fid, 'ctx! stores each value under its own identifier')
    # provided methods: they derive from read / write
    for f in ('read_spec', 'read_shape'):
        fid = READ + '::' + f
        if fid not in A.P.fns: continue
        r = A.run(fid, ['self', 'ident'])
        i = r.arg(1); buf = mk('val', mk('slot', i))
        want = ite(mk('batom', 'held', i), mk('adt', OPT, 1, mk('bshape', buf) if f == 'read_shape' else buf), mk('adt', OPT, 0))
        got = r.ret if f == 'read_shape' else rigid.leafmap(r.ret, lambda x: densify(r.ip, x))
        rep.eq('Read::%s' % f, equal(got, want), fid, 'structured and shape reads agree with the plain read')
    fid = WRITE + '::write_spec'
    if fid in A.P.fns:
        for form, S in (('Raw', mk('adt', SPEC, RAW, sym('B'))), ('Full', mk('adt', SPEC, FULL, sym('shape'), mk('sval', sym('v')))), ('Diagonal', mk('adt', SPEC, DIAG, sym('shape'), mk('sval', sym('v'))))):
            r = A.run(fid, ['self', 'ident', 'spec'], concrete={2: S})
            out = r.out(0) if r.out(0) is not None else r.st.get('ctx')
            if out is None or out.op != 'ctxw': rep.add('Write::write_spec[%s]' % form, '?' if out is None or algebra.find_unk(out) else 'no', fid, 'no single write: %s' % (show(out)[:100] if out is not None else None), 'writing a structured value writes its buffer'); continue
            rep.eq('Write::write_spec[%s] value' % form, equal(out.a[2], rigid.dense(r.ip, S)), fid, 'writing a structured value writes its buffer')
            rep.eq('Write::write_spec[%s] identifier' % form, equal(out.a[1], r.arg(1)), fid, 'writing a structured value writes under the given identifier')
    rep.floor('declared context fields', n, 20)

def densify(ip, x):
    """Option<Spec<B>> leaf with its buffer in place of the structured form"""
    if x.op == 'adt' and x.a[0] == OPT and x.a[1] == 1: return mk('adt', OPT, 1, rigid.dense(ip, x.a[2]))
    return x

def shape_term(A, ip, fty, v, cache):
    if cache and fty[0] == 'adt': fty = fty[2][0]
    fty = ip.env.norm(fty)
    if fty[0] == 'prim': return rigid.S0
    if fty[0] == 'array' or fty[0] == 'adt':
        im = [im for im in A.P.by_trait.get('aegir::buffers::shapes::Shaped', ()) if im.targs[0][0] == fty[0] and (fty[0] == 'array' and im.targs[0][1][0] in ('param', 'proj', 'prim') or fty[0] == 'adt' and im.targs[0][1] == fty[1])]
        if len(im) == 1:
            r = A.run(im[0].fns['shape'], ['self'])
            return subst(r.ret, {mk('alen', sym('self', 'arr')): mk('alen', v) if v.op != 'arr' else v.a[0]})
        return mk('unk', 'shape of %s' % ty_show(fty))
    return mk('bshape', v)

# ------------------------------------------------------------------ the expression macro
METHODS = {'ln': 'Ln', 'neg': 'Negate', 'abs': 'Abs', 'squared': 'Square', 'sigmoid': 'Sigmoid', 'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'pow': 'Power'}
def c19(A, rep, tier):
    names = {}
    for im in A.P.by_trait.get(FN, ()):
        t = im.targs[0]
        if t[0] == 'adt': names.setdefault(t[1].rsplit('::', 1)[1], t[1])
    def op(n): return lambda *xs: mk('adt', names[n], 0, *xs)
    miss = [n for n in ('Add', 'Sub', 'Mul', 'Div', 'Power', 'Square', 'Constant', 'Ln', 'Negate', 'Abs', 'Sum', 'Sigmoid', 'Cached', 'Variable') if n not in names]
    if miss: rep.add('operators', '?', FN, 'no operators named %s' % miss, ''); return
    ADD, SUB, MUL, DIV, POW, SQ, LN, NEG, ABS = map(op, ('Add', 'Sub', 'Mul', 'Div', 'Power', 'Square', 'Ln', 'Negate', 'Abs'))
    def K(x): return op('Constant')(num(Fraction(x)))
    W = {
        'add': ADD, 'sub': SUB, 'mul': MUL, 'pow': POW,
        'sq_int': lambda a: SQ(a), 'sq_float': lambda a: SQ(a), 'cube_int': lambda a: POW(a, K(3)), 'pow_float': lambda a: POW(a, K('2.5')), 'pow_zero': lambda a: POW(a, K(0)),
        'pow_one': lambda a: POW(a, K(1)), 'pow_22': lambda a: POW(a, K(22)), 'two_pow': lambda a: POW(K(2), a), 'two_int_two': lambda: SQ(K(3)),
        'add_mul': lambda a, b, c: ADD(a, MUL(b, c)), 'mul_add': lambda a, b, c: ADD(MUL(a, b), c), 'sub_sub': lambda a, b, c: SUB(SUB(a, b), c), 'sub_add': lambda a, b, c: ADD(SUB(a, b), c),
        'sub_paren': lambda a, b, c: SUB(a, SUB(b, c)), 'sub_paren_add': lambda a, b, c: SUB(a, ADD(b, c)), 'paren_mul': lambda a, b, c: MUL(ADD(a, b), c), 'mul_paren': lambda a, b, c: MUL(a, SUB(b, c)),
        'mul_mul': lambda a, b, c: MUL(MUL(a, b), c), 'pow_paren': lambda a, b, c: POW(MUL(a, b), c), 'mul_pow': lambda a, b, c: MUL(a, POW(b, c)), 'pow_sum': lambda a, b, c: POW(a, ADD(b, c)),
        'pow_pow': lambda a, b, c: POW(POW(a, b), c), 'pow_pow_r': lambda a, b, c: POW(a, POW(b, c)), 'sse': lambda a, b: SQ(SUB(a, b)), 'sse_pow': lambda a, b: POW(SUB(a, b), K(4)),
        'lit_int_l': lambda a: SUB(K(10), a), 'lit_int_r': lambda a: SUB(a, K(10)), 'lit_float_l': lambda a: MUL(K('0.25'), a), 'lit_float_r': lambda a: MUL(a, K('0.25')), 'lit_zero': lambda a: ADD(a, K(0)),
        'lit_one': lambda a: MUL(a, K(1)), 'lit_two': lambda a: MUL(a, K(2)), 'lit_two_l': lambda a: SUB(MUL(K(2), a), K(1)), 'lit_sep': lambda a: ADD(a, K(1000)), 'lit_exp': lambda a: ADD(a, K(1000)),
        'lit_only_int': lambda: K(7), 'lit_only_float': lambda: K('7.5'), 'lit_paren': lambda: K(3),
        'method': lambda a, b: ADD(LN(a), NEG(b)), 'method_arg': lambda a, b, c: MUL(ADD(a, b), SUB(c, K(1))), 'method_lit': lambda a: ADD(POW(a, K(3)), K(2)),
        'method_inner': lambda a, b, c: MUL(ABS(SUB(a, b)), LN(ADD(c, K(1)))), 'call': lambda a, b: SUB(MUL(a, b), K(1)), 'block': SUB,
        'nested': lambda a, b, c, d: POW(SUB(a, MUL(b, SUB(c, d))), SUB(K(2), SUB(K(3), K(2)))),
        'grouped': lambda a, b, c, d: SUB(SQ(ADD(a, MUL(b, c))), SUB(POW(d, K(3)), K(2))), 'loose': lambda a, b, c: POW(ADD(a, b), MUL(c, K(2))),
    }
    W['tuple_field'] = lambda p: SUB(field(p, 0, 0), field(p, 0, 1)); W['let_block'] = lambda a, b, c: MUL(c, SUB(a, b))
    W['in_call'] = lambda a, b, c: SUB(SUB(a, MUL(b, c)), K(2)); W['turbofish'] = lambda a, b: SUB(ADD(MUL(a, K(3)), SQ(b)), K(1))
    n = 0
    for f, want in W.items():
        fid = 'fixtures::macros::' + f
        if fid not in A.P.fns: rep.add('aegir! %s' % f, '?', fid, 'not found', ''); continue
        n += 1; same_graph(A, rep, 'aegir! %s' % f, fid, want, 'the macro builds the graph of the equivalent method chain')
    rep.floor('macro expressions', n, 40)
    import macrogen
    repo = getattr(rep, 'repo', '/repo'); G = 0
    bo = {'+': ADD, '-': SUB, '*': MUL, '^': POW}
    def build(t, env):
        if isinstance(t, str): return env[t]
        if t[0] == 'lit': return K(t[1].replace('_', ''))
        if t[0][0] == '.': return op(METHODS[t[0][1:]])(*[build(x, env) for x in t[1:]])
        return bo[t[0]](build(t[1], env), build(t[2], env))
    for f, ps, text, t in macrogen.programs(repo):
        fid = 'fixtures::macros_gen::' + f
        if fid not in A.P.fns: rep.add('aegir!(%s)' % text, '?', fid, 'not found', ''); continue
        G += 1; same_graph(A, rep, 'aegir!(%s)' % text, fid, lambda *xs: build(t, dict(zip(ps, xs))), 'the macro builds the graph of the equivalent method chain')
    rep.floor('generated macro expressions', G, 250)
    B = {'add': ADD, 'sub': SUB, 'mul': MUL, 'div': DIV, 'pow': POW, 'ln': LN, 'neg': NEG, 'abs': ABS, 'squared': SQ, 'sum': op('Sum'), 'sigmoid': op('Sigmoid'), 'cached': op('Cached')}
    m = 0
    for f, want in B.items():
        fid = 'aegir::Node::' + f
        if fid in A.P.fns: m += 1; same_graph(A, rep, 'Node::%s' % f, fid, want, 'a builder method builds the operator it names over its operands in order')
    fid = 'aegir::Node::dot'
    if fid in A.P.fns:
        m += 1; r = A.run(fid); x = r.ret
        ty = tup(A.P.fns[fid].body['locals'][0])
        st = 'yes' if x.op == 'adt' and x.a[0] == names.get('Contract') and x.a[2] is r.arg(0) and x.a[3] is r.arg(1) and 1 in [v.a[0] for v in const_args(A, x, ty).values() if v.op == 'num'] else '?' if algebra.find_unk(x) else 'no'
        rep.add('Node::dot', st, fid, '' if st == 'yes' else 'builds %s : %s' % (show(x)[:80], ty_show(ty)), 'a builder method builds the operator it names over its operands in order')
    rep.floor('builder methods', m, 8)

def same_graph(A, rep, key, fid, want, rule):
    r = A.run(fid)
    got = r.ret; exp = want(*[r.arg(i) for i in range(len(r.args))])
    if got is exp: rep.add(key, 'yes', fid, '', rule); return
    if algebra.find_unk(got): rep.add(key, '?', fid, 'not analysed: %s' % show(got)[:100], rule); return
    q = equal(denote(A, got, tup(A.P.fns[fid].body['locals'][0])), denote(A, exp, None))
    rep.add(key, q[0], fid, '' if q[0] == 'yes' else 'builds %s instead of %s' % (show(got)[:120], show(exp)[:120]), rule)
