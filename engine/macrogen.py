"""generated client programs of the expression macro: every pair of operators in every grouping, and literals in every
operand position. The literals include every numeric constant written in the macro's own source (a fold over the syntax
tree can single out a literal only by comparing it with one it contains). The programs are only compiled, never run."""
import itertools, os, re
PRELUDE = '''#![allow(unused, clippy::all)]
use aegir::Node;
pub const FLAG: bool = true;
pub struct Pair<L, R> { pub l: L, pub r: R }
pub fn id<T>(t: T) -> T { t }
pub fn b2<T>(t: T) -> T { t }
pub fn one2<T, U>(t: T, _: U) -> T { t }
pub fn two2<T, U>(_: T, u: U) -> U { u }
pub fn mid3<T, U, W>(_: T, u: U, _: W) -> U { u }'''
OPS = {'+': ('ADD', 2), '-': ('SUB', 2), '*': ('MUL', 3), '^': ('POW', 1)}

def tree(xs, ops):
    """the grouping the host language gives to x0 op0 x1 op1 x2 ... (all left associative)"""
    if not ops: return xs[0]
    p = min(OPS[o][1] for o in ops)
    i = max(k for k, o in enumerate(ops) if OPS[o][1] == p)
    return (ops[i], tree(xs[:i + 1], ops[:i]), tree(xs[i + 1:], ops[i + 1:]))

def harvest(repo):
    out = []
    d = os.path.join(repo, 'aegir_compile', 'src')
    for root, _, fs in sorted(os.walk(d)):
        for f in sorted(fs):
            if not f.endswith('.rs'): continue
            s = re.sub(r'//[^\n]*', '', open(os.path.join(root, f)).read())
            for m in re.finditer(r'(?<![\w.])(\d[\d_]*)(\.\d[\d_]*)?([eE][+-]?\d+)?(?![\w])', s):
                w = m.group(0)
                if w not in out and len(w) < 12: out.append(w)
    return out

def literals(repo):
    ls = ['0', '1', '2', '3', '10', '12', '20', '0.0', '0.2', '0.5', '1.0', '1.9', '2.0', '2.1', '2.5', '1e1', '2e1', '2.001', '2.00000001', '22', '200', '1.999', '0.002', '2e-1', '20e-1']
    for w in harvest(repo):
        if len(ls) > 60: break
        # a textual test can single out every literal starting or ending like one of its constants
        near = [w, w + '.0', w + '.01', w + '1', '1' + w] if re.fullmatch(r'[\d_]+', w) else [w] if re.search('[eE]', w) else [w, w + '0', w + '1', w + '01', '1' + w]
        for v in near:
            if v not in ls: ls.append(v)
    return ls

def programs(repo):
    """(name, parameters, expression text, tree); a leaf of the tree is a parameter name or ('lit', text)"""
    out = []
    def add(ps, text, t): out.append(('g%d' % len(out), ps, text, t))
    for o in itertools.product(OPS, repeat=2):
        a, b, c = 'abc'
        add('abc', 'a %s b %s c' % o, tree(list('abc'), list(o)))
        add('abc', '(a %s b) %s c' % o, (o[1], (o[0], a, b), c))
        add('abc', 'a %s (b %s c)' % o, (o[0], a, (o[1], b, c)))
    for o in itertools.product(OPS, repeat=3):
        add('abcd', 'a %s b %s c %s d' % o, tree(list('abcd'), list(o)))
    U = ('ln', 'neg', 'abs', 'squared', 'sigmoid'); B = ('add', 'sub', 'mul', 'div', 'pow')
    for o in OPS:
        for u in U:
            add('ab', 'a %s b.%s()' % (o, u), (o, 'a', ('.' + u, 'b')))
            add('ab', 'a.%s() %s b' % (u, o), (o, ('.' + u, 'a'), 'b'))
            add('ab', '(a %s b).%s()' % (o, u), ('.' + u, (o, 'a', 'b')))
            add('ab', '(a.%s() %s 2).%s()' % (u, o, u), ('.' + u, (o, ('.' + u, 'a'), ('lit', '2'))))
        for m in B:
            add('abc', 'a.%s(b %s c)' % (m, o), ('.' + m, 'a', (o, 'b', 'c')))
            add('abc', '(a %s b).%s(c %s 2)' % (o, m, o), ('.' + m, (o, 'a', 'b'), (o, 'c', ('lit', '2'))))
            add('abc', 'a %s b.%s(c)' % (o, m), (o, 'a', ('.' + m, 'b', 'c')))
    for l in literals(repo):
        L = ('lit', l)
        for o in OPS:
            add('a', 'a %s %s' % (o, l), (o, 'a', L))
            add('a', '%s %s a' % (l, o), (o, L, 'a'))
            add('a', 'a %s (%s)' % (o, l), (o, 'a', L))
        add('ab', 'a - b ^ %s' % l, ('^', ('-', 'a', 'b'), L))
        add('ab', 'a - (b ^ %s)' % l, ('-', 'a', ('^', 'b', L)))
    two = [('b', 'b'), ('1', ('lit', '1')), ('0', ('lit', '0')), ('2', ('lit', '2')), ('2.0', ('lit', '2.0')), ('3', ('lit', '3')), ('(2)', ('lit', '2'))]
    lefts = [('a', 'a'), ('2', ('lit', '2')), ('2.0', ('lit', '2.0')), ('1', ('lit', '1')), ('0', ('lit', '0')), ('(a)', 'a'), ('(2)', ('lit', '2')), ('(a - d)', ('-', 'a', 'd')), ('(2 - a)', ('-', ('lit', '2'), 'a')), ('a.ln()', ('.ln', 'a')), ('id(a)', 'a'), ('(a ^ 2)', ('^', 'a', ('lit', '2')))]
    rights = two + [('(b - c)', ('-', 'b', 'c')), ('(b ^ 2)', ('^', 'b', ('lit', '2'))), ('(2 ^ b)', ('^', ('lit', '2'), 'b')), ('b.ln()', ('.ln', 'b')), ('id(b)', 'b'), ('id(2)', ('lit', '2'))]
    for o in OPS:
        for (l, lt), (r, rt) in itertools.product(lefts, rights): add('abcd', '%s %s %s' % (l, o, r), (o, lt, rt))
    D = ('-', 'a', 'b')
    for o in OPS:
        e, t = 'a %s b' % o, (o, 'a', 'b')
        add('abc', 'one2(%s, c ^ 2)' % e, t); add('abc', 'two2(c ^ 2, %s)' % e, t)
        add('abcd', 'one2(%s, c) %s two2(1, d)' % (e, o), (o, t, 'd')); add('abcd', 'mid3(c, %s, d)' % e, t)
        add('abcd', 'one2(c, d).sub(%s)' % e, ('.sub', 'c', t)); add('abcd', 'c.sub(two2(d, %s))' % e, ('.sub', 'c', t))
        add('abc', '(%s, c).0' % e, t); add('abc', '(c, %s).1' % e, t); add('abcd', '(c, 1, %s).2 - d' % e, ('-', t, 'd'))
        add('ab', '{ %s }' % e, t); add('ab', '{ let x = %s; x }' % e, t); add('ab', '{ let x = b ^ 2; let y = a; y %s x }' % o, (o, 'a', ('^', 'b', ('lit', '2'))))
        add('ab', '{ let a = %s; a - b2(2) }' % e, ('-', t, ('lit', '2'))); add('ab', 'match (a, b) { (x, y) => x %s y }' % o, t); add('ab', 'match (a, b) { (y, x) => x %s y }' % o, (o, 'b', 'a'))
        add('ab', '{ let f = |x: A, y: B| x %s y; f(a, b) }' % o, t); add('ab', '{ let f = |x: A, y: B| y %s x; f(a, b) }' % o, (o, 'b', 'a')); add('ab', '{ let f = move |x: B| a %s x; f(b) }' % o, (o, 'a', 'b'))
        add('abc', 'Pair { l: c, r: %s }.r' % e, t); add('abc', 'Pair { l: %s, r: c }.l' % e, t); add('abc', 'Pair { r: c, l: %s }.l - 1' % e, ('-', t, ('lit', '1')))
        add('ab', 'unsafe { %s }' % e, t); add('ab', "'l: loop { break 'l %s; }" % e, t); add('ab', 'Node::sub(%s, 2)' % e, ('.sub', t, ('lit', '2'))); add('ab', '(((%s)))' % e, t)
        add('ab', 'aegir!(%s) - 1' % e, ('-', t, ('lit', '1'))); add('ab', 'a %s { b - 1 }' % o, (o, 'a', ('-', 'b', ('lit', '1')))); add('ab', 'a %s id::<_>(b - 1)' % o, (o, 'a', ('-', 'b', ('lit', '1'))))
        add('ab', 'if FLAG { %s } else { a %s b }' % (e, o), t); add('ab', 'return %s' % e, t)
    return out

def source(repo):
    s = ['//! generated', PRELUDE]
    for n, ps, text, _ in programs(repo):
        s.append('pub fn %s<%s>(%s) -> impl Node { aegir!(%s) }' % (n, ', '.join('%s: Node' % p.upper() for p in ps), ', '.join('%s: %s' % (p, p.upper()) for p in ps), text))
    return '\n'.join(s) + '\n'
