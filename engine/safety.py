"""C06 (no panic on well-typed input) and C17 (unsafe operations keep their preconditions): every obligation met by the
interpreter on the way from a public function is decided under the conditions that lead to it."""
import collections
from ana import *
from algebra import decide
import bufs, nodes, shapesx
from report import Report

PANIC = ('panic', 'unwrap', 'bounds', 'abort', 'underflow')
def is_panic(k): return k in PANIC or k.startswith('assert:')
UNSAFE = ('unsafe-unwrap', 'unsafe-index', 'unsafe-read', 'unsafe-unreachable', 'unsafe-transmute', 'unsafe-init')

def roots(A):
    """public, safe functions of the library and of the code its macros generate"""
    for f, fn in A.P.fns.items():
        if not f.startswith(('aegir::', 'fixtures::')) or not fn.body or fn.unsafe or 'closure#' in f: continue
        if not str(fn.vis).startswith('Public'): continue
        yield f, fn
def multi_product(A):
    """the iterators of run-time shapes are analysed per rank with their state invariant"""
    out = set()
    for im in A.P.by_trait.get(shapesx.SHAPE, ()):
        if shapesx.rank(im.targs[0]) is not None and shapesx.is_dyn(im.targs[0]):
            E = shapesx.Enum(A, im, 1)
            if E.it is not None:
                for x in A.P.impls:
                    s = x.self if x.self is not None else (x.targs[0] if x.targs else None)
                    if s is not None and s[0] == 'adt' and s[1].rsplit('::', 1)[0] == E.it.targs[0][1].rsplit('::', 1)[0]: out |= set(x.fns.values())
    return out

def facts_for(cond):
    """facts of the number system used by enumeration over boxes: every digit is below its base"""
    out = []; seen = set()
    for x in subterms(cond):
        if x.op == 'dig' and x not in seen:
            seen.add(x); out.append((lt(x, x.a[2 + x.a[1]]), True))
        if x.op == 'batom' and x.a[0] in ('representable', 'nooverflow') and x not in seen: seen.add(x); out.append((x, True))
    return out

def sweep(A, rep, tier, kinds):
    """[(root, obligation)] over the public surface and over the structured configurations of the other checks"""
    obls = {}
    def take(root, rs):
        for o in rs:
            if kinds(o.kind):
                k = (o.kind, o.fn, str(o.span), getattr(o.cond, 'id', 0), getattr(o.pc, 'id', 0), root)
                obls.setdefault(k, (root, o))
    global incomplete
    incomplete = []
    skip = multi_product(A); nroots = 0; unk = collections.Counter()
    for f, fn in roots(A):
        if f in skip: continue
        nroots += 1
        r = A.run(f); take(f, r.obls)
        u = algebra.find_unk(mk('tup', r.ret, r.cond))
        if u is not None and not str(u.a[0]).startswith('call core::fmt') and not by_contract(A, f): incomplete.append((f, str(u.a[0])))
    orig = A.run
    def run(fid, *a, **k):
        r = orig(fid, *a, **k); take(fid, r.obls); return r
    A.run = run
    try:
        for c in (nodes.c02, nodes.c03, nodes.c05, bufs.c12, bufs.c13, bufs.c14, bufs.c15, shapesx.c16, shapesx.c25): c(A, Report('x', tier), tier)
    finally: A.run = orig
    return list(obls.values()), nroots

# documented preconditions: the caller supplies a valid index
CONTRACT_METHODS = {'get_unchecked', 'build_subset'}
CONTRACT_TRAITS = {'core::ops::index::Index', 'core::ops::index::IndexMut', 'std::ops::Index', 'std::ops::IndexMut'}
def by_contract(A, f):
    d = A.P.defs.get(f) or {}
    if d.get('name') in CONTRACT_METHODS: return True
    t = d.get('impl_trait') or d.get('trait') or ''
    return t in CONTRACT_TRAITS or t.endswith(('::Index', '::IndexMut'))

def settle(o):
    c = o.cond
    if c is TRUE: return ('yes', None)
    fs = facts_for(mk('tup', c, o.pc)) if c.op != 'unk' else []
    for x, v in fs:
        if x.op == 'batom': c = algebra.assign(c, x, v)
    if c is TRUE: return ('yes', None)
    d = decide(c, o.pc, [f for f in fs if f[0].op != 'batom'])
    if d[0] == 'no' and any(x.op == 'batom' and x.a[0] in ABSTRACT for x in subterms(mk('tup', c, o.pc))): return ('?', d[1])
    return d
ABSTRACT = ('scontains',)
MEMO = {}
def settled(o):
    k = (getattr(o.cond, 'id', None), getattr(o.pc, 'id', None))
    if k not in MEMO: MEMO[k] = settle(o)
    return MEMO[k]

NAMES = {'unwrap': 'unwrap of a value that is present', 'bounds': 'index within bounds', 'panic': 'panicking branch unreachable', 'abort': 'abort unreachable',
         'underflow': 'unsigned subtraction does not wrap'}
def c06(A, rep, tier):
    obls, nroots = sweep(A, rep, tier, is_panic)
    groups = {}
    for root, o in obls:
        if by_contract(A, root): continue
        groups.setdefault((root, o.kind, o.fn or root, str(o.span)), []).append(o)
    for (root, kind, fn, span), os_ in sorted(groups.items()):
        ds = [settled(o) for o in os_]
        bad = next((d for d in ds if d[0] == 'no'), None) or next((d for d in ds if d[0] == '?'), None)
        d = bad or ('yes', None)
        site = re.sub(r':\d+(:\d+)?', '', span)
        rep.add('%s: %s' % (root, kind) + ('' if fn == root else ' in %s' % fn), d[0], '%s (%s)' % (fn, span), d[1] or '', NAMES.get(kind, 'run-time assertion holds'))
    for f, why in incomplete: rep.add('%s: analysed to the end' % f, '?', f, why, 'completeness of the analysis')
    recursion(A, rep)
    rep.notes.append('%d public roots' % nroots)
    rep.floor('public roots analysed', nroots, 500)
    rep.floor('panic obligations', len(groups), 60)

def callee_of(P, t):
    f = t[1]
    if f[0] != 'const' or f[1] != 'fn': return None
    if len(t) > 5 and t[5]: return t[5][0], tup(t[5][1])
    q = f[2]
    return q[1], tup(q[2])

def must_calls(P, fn):
    """functions called on every path from entry to a return"""
    bl = fn.body['blocks']; calls = {}
    for i, b in enumerate(bl):
        t = b['t']
        if t[0] == 'call':
            c = callee_of(P, t)
            if c and c[0] in P.fns: calls.setdefault(c, set()).add(i)
    out = set()
    for c, at in calls.items():
        seen = set(); todo = [0]; ret = False
        while todo:
            i = todo.pop()
            if i in seen or i in at: continue
            seen.add(i); t = bl[i]['t']
            if t[0] == 'return': ret = True; break
            todo += [x for x in succs(t)]
        if not ret: out.add(c)
    return out
def succs(t):
    k = t[0]
    if k == 'goto': return [t[1]]
    if k == 'call': return [t[4]] if t[4] is not None else []
    if k == 'assert': return [t[4]]
    if k == 'drop': return [t[2]] if len(t) > 2 and t[2].__class__ is int else [x for x in t[1:] if x.__class__ is int]
    if k == 'switch':
        out = []
        def ints(x, top):
            if x.__class__ in (list, tuple):
                for y in x: ints(y, False)
        for x in t[2:]:
            if x.__class__ is int: out.append(x)
            elif x.__class__ in (list, tuple):
                for y in x: out.append(y[1] if y.__class__ in (list, tuple) else y)
        return [x for x in out if x.__class__ is int]
    return []

def recursion(A, rep):
    """no function calls itself, with the same type arguments, on every path"""
    P = A.P; g = {}
    for f, fn in P.fns.items():
        if f.startswith(('aegir::', 'fixtures::')) and fn.body: g[f] = must_calls(P, fn)
    n = 0
    def ident(f, args):
        own = [('param', x[1], x[2]) if x[0] == 'type' else ('cparam', x[1], x[2]) if x[0] == 'const' else None for x in P.fns[f].generics]
        return [a for a in own if a] == [a for a in args if a[0] not in ('region', 'lt')]
    for f in sorted(g):
        n += 1
        for h, args in g[f]:
            if h == f and (ident(f, args) or not args):
                rep.add('%s: unconditional recursion' % f, 'no', f, 'every path from entry to return calls the function itself', 'termination of calls')
            elif h in g and h != f and any(h2 == f and not a2 for h2, a2 in g[h]) and not args:
                rep.add('%s: unconditional mutual recursion with %s' % (f, h), 'no', f, 'every path calls back', 'termination of calls')
    rep.add('call graph: no unconditional recursion', 'yes', '%d functions' % n, '', 'termination of calls')

# ------------------------------------------------------------------ C17
TRUSTED_UNSAFE = re.compile(r'^(core::fmt::|alloc::fmt::|std::fmt::)')     # emitted by format_args!
def places(x):
    if x.__class__ in (list, tuple):
        if len(x) == 2 and x[0].__class__ is int and x[1].__class__ in (list, tuple): yield x
        for y in x: yield from places(y)

def unsafe_sites(A):
    """(function, span, what, kind) of every operation whose soundness the compiler does not check"""
    P = A.P
    for f, fn in P.fns.items():
        if not f.startswith(('aegir::', 'fixtures::')) or not fn.body: continue
        for b in fn.body['blocks']:
            t = b['t']
            if t[0] == 'call':
                q = t[1]
                if q[0] == 'const' and q[1] == 'fn':
                    d = P.defs.get(q[2][1]) or {}
                    if d.get('unsafe') and not TRUSTED_UNSAFE.match(q[2][1]): yield f, t[6] if len(t) > 6 else None, d.get('pretty', q[2][1]), 'call'
            for s in b['s']:
                if s[0] != '=': continue
                if s[2][0] == 'cast' and s[2][1] == 'Transmute': yield f, s[3] if len(s) > 3 else None, 'transmute', 'transmute'
                for p in places(s):
                    ty = tup(fn.body['locals'][p[0]]) if p[0] < len(fn.body['locals']) else None
                    if p[1] and p[1][0][0] == 'deref' and ty and ty[0] == 'ptr': yield f, s[3] if len(s) > 3 else None, 'raw pointer dereference', 'deref'
                    if ty and ty[0] == 'adt' and P.adts.get(ty[1], {}).get('union') and p[1] and p[1][0][0] == 'field': yield f, s[3] if len(s) > 3 else None, 'union field', 'union'

def c17(A, rep, tier):
    sites = {}
    for f, span, what, kind in unsafe_sites(A): sites.setdefault((f, str(span), what), kind)
    obls, nroots = sweep(A, rep, tier, lambda k: k in UNSAFE)
    met = {}
    for root, o in obls: met.setdefault((o.fn, str(o.span)), []).append((root, o))
    used = set()
    for (f, span, what), kind in sorted(sites.items()):
        key = '%s: %s' % (f, what)
        here = met.get((f, span), [])
        if here: used.add((f, span))
        ds = [(settled(o), root, o) for root, o in here]
        bad = next((x for x in ds if x[0][0] == 'no'), None) or next((x for x in ds if x[0][0] == '?'), None)
        if bad: rep.add(key, bad[0][0], '%s (%s)' % (f, span), '%s reached from %s: %s' % (bad[2].kind, bad[1], bad[0][1]), 'precondition of the unsafe operation')
        elif here: rep.add(key, 'yes', '%s (%s)' % (f, span), '%d obligations' % len(here), 'precondition of the unsafe operation')
        elif what == 'raw pointer dereference': rep.add(key, '?', '%s (%s)' % (f, span), 'not reached by the analysis of a public function', 'precondition of the unsafe operation')
        else: rep.add(key, dead(A, f, span), '%s (%s)' % (f, span), 'no obligation met', 'precondition of the unsafe operation')
    for (f, span), rs in sorted(met.items(), key=str):
        if (f, span) in used: continue
        for root, o in rs:
            d = settled(o)
            if d[0] != 'yes': rep.add('%s: %s' % (f, o.kind), d[0], '%s (%s)' % (f, span), '%s reached from %s: %s' % (o.kind, root, d[1]), 'precondition of the unsafe operation')
    ext = [f for f, fn in A.P.fns.items() if f.startswith('aegir::') and fn.unsafe]
    for f in ext: rep.add('%s: unsafe function' % f, '?', f, 'the callers carry its precondition', 'unsafe interface')
    for s in A.P.statics:
        mut = s.get('mutable') or s.get('mut') if isinstance(s, dict) else False
        if mut: rep.add('%s: mutable static' % s.get('id'), '?', s.get('id'), 'unsynchronised mutable state', 'mutable statics')
    rep.add('public safe surface swept', 'yes', '%d public functions' % nroots, '%d unsafe operations' % len(sites), 'coverage')
    rep.floor('public roots analysed', nroots, 500)

def dead(A, f, span):
    """an operation in code no path reaches needs no discharge"""
    return 'yes' if (f, span) in unreachable(A, f) else '?'
def unreachable(A, f):
    fn = A.P.fns[f]; bl = fn.body['blocks']; seen = set(); todo = [0]; vals = const_locals(fn)
    while todo:
        i = todo.pop()
        if i in seen: continue
        seen.add(i); t = bl[i]['t']
        todo += taken(t, vals)
    out = set()
    for i, b in enumerate(bl):
        if i in seen: continue
        for s in b['s']:
            if s[0] == '=' and len(s) > 3: out.add((f, str(s[3])))
        if b['t'][0] == 'call' and len(b['t']) > 6: out.add((f, str(b['t'][6])))
    for i in seen:
        for s in bl[i]['s']:
            if s[0] == '=' and len(s) > 3: out.discard((f, str(s[3])))
    return out
def const_locals(fn): return {}
def taken(t, vals): return succs(t)
