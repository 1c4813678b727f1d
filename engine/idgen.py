"""generated client programs of the identifier and context macros: lists of identifiers whose names and symbols coincide in
every way a generator could confuse (prefixes, case, equal symbols, empty and special symbols, every string written in the
generator's own source), and contexts with every combination of field kinds and orders. The programs are only compiled."""
import itertools, os, re

KEYWORDS = set('as break const continue crate dyn else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while abstract async await become box do final macro override priv try typeof unsized virtual yield union'.split())
PRELUDE = set('Option Some None Result Ok Err Vec String Box Copy Clone Debug PartialEq Eq Drop Send Sync Sized Iterator Default aegir std core alloc'.split())

def strings(repo):
    out = []
    for root, _, fs in sorted(os.walk(os.path.join(repo, 'aegir_derive', 'src'))):
        for f in sorted(fs):
            if not f.endswith('.rs'): continue
            s = re.sub(r'(?m)//[^\n]*', '', open(os.path.join(root, f)).read())
            for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', s):
                try: w = bytes(m.group(1), 'utf-8').decode('unicode_escape') if '\\' in m.group(1) else m.group(1)
                except Exception: continue
                if w not in out: out.append(w)
            for m in re.finditer(r"'([^'\\\n])'", s):
                if m.group(1) not in out: out.append(m.group(1))
    return out[:60]

def lit(s): return '"' + ''.join({'\\': '\\\\', '"': '\\"', '\n': '\\n', '\t': '\\t', '\r': '\\r', '\0': '\\0'}.get(c, c) for c in s) + '"'

def id_modules(repo):
    """{module: [(name, form, symbol)]}: form is None (no symbol), 'i' (identifier symbol) or 's' (string symbol)"""
    ms = []
    N = lambda *ns: ms.append([(n, None, None) for n in ns])
    N('A'); N('A', 'AB'); N('AB', 'A'); N('A', 'Ab', 'AB', 'aB', 'BA', 'ABA'); N('X', 'XX', 'X1', 'X_1', 'X10', 'X_', '_X', 'xX'); N('Alpha', 'AlphaBeta', 'Beta', 'Al', 'pha', 'Alphb', 'B3', 'B3b')
    N('q', 'Q', 'qq', 'QQ', 'ab', 'a_b', 'A_b', 'longer_name_with_many_words', 'LongerNameWithManyWords', 'L', 'Lo', 'Lon')
    for k in itertools.product((None, 'i', 's'), repeat=3):
        ms.append([(n, f, {None: None, 'i': n.lower() + 'z', 's': n + ' ' + n.lower()}[f]) for n, f in zip(('A', 'AB', 'B'), k)])
    ms.append([('A', 'i', 'B'), ('B', 'i', 'A'), ('C', None, None), ('D', 's', 'C'), ('E', 's', 'E')])
    ms.append([('A', 'i', 'same'), ('B', 'i', 'same'), ('C', 's', 'same'), ('same', None, None), ('Same', None, None)])
    sp = ['', ' ', '{}', '{0}', '{{', '}', '"', '\\', '\n', '%s', 'a+b', '(a)', '\U0001D4D0', 'é', '0', '-1', '::', '#', 'x' * 80, "x'", "'", "x''", ' a', 'a ', ' a ', 'a\t', '`a`', '_', '_a', 'a_', 'a.b', 'r#a', '²', 'Σ', 'ß', 'A B', 'a,b', 'a::b', 'a;', '1a', '\r', '\0', 'aa', 'AaAa']
    ss = [s for s in strings(repo) if s not in sp] + sp
    for k in range(0, len(ss), 10): ms.append([('S%d' % i, 's', s) for i, s in enumerate(ss[k:k + 10])])
    names = [w for w in ss if re.fullmatch(r'[A-Za-z][A-Za-z0-9_]*', w) and w not in KEYWORDS and w not in PRELUDE]
    for k in range(0, len(names), 6):
        ms.append([(w, None, None) for w in names[k:k + 6]] + [('Other', None, None)])
        ms.append([('N%d' % i, 'i', w) for i, w in enumerate(names[k:k + 6])] + [('M%d' % i, None, None) for i, w in enumerate(names[k:k + 6])])
    return {'g%d' % i: m for i, m in enumerate(ms)}

def expected(form, name, symbol): return name if form is None else symbol

def ids_source(repo):
    s = ['//! generated']
    for m, l in id_modules(repo).items():
        s.append('pub mod %s { aegir::ids!(%s); }' % (m, ', '.join(n if f is None else '%s::%s' % (n, y if f == 'i' else lit(y)) for n, f, y in l)))
    return '\n'.join(s) + '\n'

# ------------------------------------------------------------------ contexts
IDS = ('I', 'I1', 'I12', 'J', 'Ij')
FIELDS = ('v', 'v1', 'v12', 'w', 'i')
def contexts():
    """[(type name, route, [(field, kind, identifier or None)])]: kinds c(oncrete) g(eneric) k (cache) u(nbound)"""
    out = []
    def add(route, fs): out.append(('%s%d' % (route, len(out)), route, fs))
    for n in (1, 2, 3):
        for ks in itertools.product('cgku', repeat=n):
            if 'u' * n == ''.join(ks): continue
            off = sum(map(ord, ''.join(ks))) % 5
            add('D', [(FIELDS[(i + off) % 5], k, None if k == 'u' else IDS[(2 * i + off) % 5]) for i, k in enumerate(ks)])
    for ks in ('kkkk', 'cckk', 'gkkk', 'kgkk', 'ckkck', 'kkkkk', 'ukkuk', 'kukkc', 'ccccc', 'ggggg', 'gkgkg', 'uckkg'):
        off = sum(map(ord, ks)) % 5
        add('D', [(FIELDS[(2 * i + off) % 5], k, None if k == 'u' else IDS[(3 * i + off) % 5]) for i, k in enumerate(ks)])
    for n in (1, 2, 3, 4, 5):
        for ks in itertools.product('gk', repeat=n):
            if n == 5 and 'k' * 3 not in ''.join(ks) and ''.join(ks) not in ('ggggg', 'gkgkg', 'kgkgk'): continue
            off = sum(map(ord, ''.join(ks))) % 5
            add('T', [(FIELDS[(3 * i + off) % 5], k, IDS[(i + off) % 5]) for i, k in enumerate(ks)])
    for n in (1, 2, 3): 
        for p in itertools.permutations(IDS[:4], n): add('A', [('_' + x.lower(), 'c', x) for x in p])
    for n in (4, 5):
        for k in range(n): q = (IDS[k:n] + IDS[:k])[::-1]; add('A', [('_' + x.lower(), 'c', x) for x in q])
    return out

def ctx_source():
    s = ['//! generated', 'use aegir::Context;', 'aegir::ids!(%s);' % ', '.join(IDS)]
    for name, route, fs in contexts():
        if route == 'D':
            gs = ['G%d' % i for i, f in enumerate(fs) if f[1] == 'g']
            body = []
            for i, (f, k, x) in enumerate(fs):
                ty = {'c': 'f64', 'u': 'f64', 'g': 'G%d' % i, 'k': 'Option<f64>'}[k]
                at = '' if x is None else '#[id(%s)] ' % x
                if k == 'k': at = ('#[cache] ' + at) if i % 2 else at + '#[cache] '
                body.append('%spub %s: %s' % (at, f, ty))
            s.append('#[derive(Context)] pub struct %s%s { %s }' % (name, '<%s>' % ', '.join(gs) if gs else '', ', '.join(body)))
        elif route == 'T':
            s.append('ctx_type!(%s { %s });' % (name, ', '.join('%s%s: %s' % ('cache ' if k == 'k' else '', f, x) for f, k, x in fs)))
        else:
            s.append('pub fn %s(%s) -> impl aegir::Context { ctx!(%s) }' % (name, ', '.join('a%d: f64' % i for i in range(len(fs))), ', '.join('%s = a%d' % (x, i) for i, (_, _, x) in enumerate(fs))))
    return '\n'.join(s) + '\n'
