"""Abstract interpreter: builds the value graph of a MIR body (gated-SSA style)."""
from terms import *
import terms as tm
from mir import ty_subst, ty_show

SMALL = None        # set by small.py: name of a const parameter -> the extent it is instantiated with
WIDTH = {'u8': (0, 8), 'u16': (0, 16), 'u32': (0, 32), 'u64': (0, 64), 'usize': (0, 64), 'u128': (0, 128),
         'i8': (1, 8), 'i16': (1, 16), 'i32': (1, 32), 'i64': (1, 64), 'isize': (1, 64), 'i128': (1, 128)}
def b_ite_num(b): return ite(b, ONE, ZERO)
def flat_values(v):
    """the leaf values of a nest of arrays or structs, in declaration order"""
    if v.op in ('arr', 'tup', 'clo', 'unk', 'bot', 'ite', 'ref', 'refv'): return None
    if v.op not in ('arrlit', 'adt'): return [v]
    out = []
    for e in (v.a if v.op == 'arrlit' else v.a[2:]):
        f = flat_values(e)
        if f is None: return None
        out += f
    return out

class Undecided(Exception):
    pass

class Obl:
    """a proof obligation met on the way (bounds, unwrap, panic, unsafe precondition)"""
    __slots__ = ('kind', 'fn', 'span', 'pc', 'cond', 'detail', 'stack')
    def __init__(self, kind, fn, span, pc, cond, detail, stack):
        self.kind = kind; self.fn = fn; self.span = span; self.pc = pc; self.cond = cond
        self.detail = detail; self.stack = stack

def constrain(f, p):
    """simplify boolean/value gate f under care-set p"""
    if p is TRUE or f is TRUE or f is FALSE: return f
    if p is FALSE: return f
    a = min([t for t in (tm._top(f), tm._top(p)) if t is not None], key=lambda t: t.id)
    p1 = tm._cof(p, a, True); p0 = tm._cof(p, a, False)
    f1 = tm._cof(f, a, True); f0 = tm._cof(f, a, False)
    if p1 is FALSE: return constrain(f0, p0)
    if p0 is FALSE: return constrain(f1, p1)
    return b_ite(a, constrain(f1, p1), constrain(f0, p0))

class Frame:
    __slots__ = ('fn', 'body', 'sub', 'fid', 'cfg', 'span')

class Interp:
    MAXDEPTH = 60
    def __init__(self, prog, env, models):
        self.prog = prog; self.env = env; self.models = models
        self.obls = []
        self.fidc = 0
        self.stack = []
        self.ranges = {}       # var -> (lo, hi) : lo <= var < hi
        self.uptys = {}        # closure -> types of its captures, at the place that creates it
        self.visited = set()   # functions analysed
        self.calls = 0
        self.notes = []

    # ------------------------------------------------------------ CFG
    def cfg(self, fn, body):
        key = id(body)
        c = fn.cfg.get(key)
        if c: return c
        blocks = body['blocks']
        succ = {}
        for i, b in enumerate(blocks):
            if b['c']:
                succ[i] = []; continue
            t = b['t']; k = t[0]
            if k == 'goto': s = [t[1]]
            elif k == 'switch': s = [x[1] for x in t[2]] + [t[3]]
            elif k == 'drop': s = [t[1]]
            elif k == 'call': s = [t[4]] if t[4] is not None else []
            elif k == 'assert': s = [t[4]]
            elif k in ('return', 'unreachable', 'resume', 'abort', 'terminate'): s = []
            else: s = [x for x in t[1:] if isinstance(x, int)][:1]
            succ[i] = [x for x in s if not blocks[x]['c']]
        # RPO
        seen = set(); post = []
        st = [(0, iter(succ[0]))]; seen.add(0)
        onst = {0}
        back = set()
        while st:
            n, it = st[-1]
            adv = False
            for m in it:
                if m not in seen:
                    seen.add(m); onst.add(m); st.append((m, iter(succ[m]))); adv = True; break
                elif m in onst:
                    back.add((n, m))
            if not adv:
                st.pop(); onst.discard(n); post.append(n)
        rpo = list(reversed(post))
        pos = {b: i for i, b in enumerate(rpo)}
        pred = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]: pred[s].append(b)
        loops = {}
        for n, h in back:
            L = loops.setdefault(h, {h})
            w = [n]
            while w:
                x = w.pop()
                if x in L: continue
                L.add(x); w.extend(pred[x])
        # live-in locals per block (to drop dead cells at loop headers)
        c = (succ, rpo, pos, loops)
        fn.cfg[key] = c
        return c

    # ------------------------------------------------------------ entry points
    def fn_sub(self, fn, args):
        return {g[2]: a for g, a in zip(fn.generics, args)}

    def call_fn(self, fid, args_ty, args, st, pc, span=None):
        """inline the body of function fid; returns (ret, state, ret_cond)"""
        fn = self.prog.fns.get(fid)
        if fn is None:
            return unk('no body for ' + fid), st, pc
        if sum(1 for s in self.stack if s[0] == fid) > 6 or len(self.stack) > self.MAXDEPTH:
            return unk('recursion at ' + fid), st, pc
        self.visited.add(fid)
        return self.run_body(fn, fn.body, self.fn_sub(fn, args_ty), args, st, pc, span)

    def run_body(self, fn, body, sub, args, st, pc, span=None):
        self.fidc += 1
        fr = Frame(); fr.fn = fn; fr.body = body; fr.sub = sub; fr.fid = self.fidc; fr.cfg = self.cfg(fn, body)
        st = dict(st)
        for i, a in enumerate(args):
            st[(fr.fid, i + 1)] = a
        self.stack.append((fn.id, span))
        try:
            res = self.region(fr, None, None, 0, pc, st)
        finally:
            self.stack.pop()
        out = res.get('return')
        if not out:
            return BOT, st, FALSE
        cond, st2 = out
        ret = st2.get((fr.fid, 0), mk('tup'))
        fid = fr.fid
        st2 = {k: v for k, v in st2.items() if k.__class__ is not tuple or k[0] != fid or self._escapes(k, ret, st2)}
        return ret, st2, cond

    def _escapes(self, key, ret, st):
        # cells of finished frames may still be referenced by returned references (promoted temporaries)
        return False if not any(x.op == 'ref' and x.a[0] == key for x in subterms(ret)) else True

    # ------------------------------------------------------------ region execution
    def merge(self, ins):
        if len(ins) == 1:
            return ins[0]
        cond = bor(*[c for c, _ in ins])
        keys = set()
        for _, s in ins: keys.update(s)
        out = {}
        last = ins[-1][1]
        gates = [constrain(c, cond) for c, _ in ins]
        for k in keys:
            vs = [s.get(k) for _, s in ins]
            v0 = next(v for v in vs if v is not None)
            if all(v is None or v is v0 for v in vs):
                out[k] = v0; continue
            r = None
            for g, v in zip(reversed(gates), reversed(vs)):
                if v is None: continue
                r = v if r is None else ite(g, v, r)
            out[k] = r
        return cond, out

    def region(self, fr, blockset, header, entry, pc, st):
        succ, rpo, pos, loops = fr.cfg
        pend = {entry: [(pc, st)]}
        res = {}
        def push(b, c, s):
            if c is FALSE: return
            if b == 'return' or b == header or (blockset is not None and b not in blockset):
                if b == header and b == entry and header is None: pass
                res.setdefault(b, []).append((c, s))
            else:
                pend.setdefault(b, []).append((c, s))
        skip = set()
        for b in rpo:
            if b in skip or b not in pend: continue
            if blockset is not None and b not in blockset: continue
            cond, s = self.merge(pend.pop(b))
            if b in loops and b != header:
                L = loops[b]
                skip |= L
                for tgt, (c2, s2) in self.loop(fr, b, L, cond, s).items():
                    push(tgt, c2, s2)
                continue
            for tgt, c2, s2 in self.block(fr, b, cond, dict(s)):
                push(tgt, c2, s2)
        return {k: self.merge(v) for k, v in res.items()}

    def block(self, fr, b, pc, st):
        blk = fr.body['blocks'][b]
        for s in blk['s']:
            if s[0] == '=':
                fr.span = s[3] if len(s) > 3 else None
                v, st = self.rvalue(fr, s[2], st, pc, s)
                st = self.assign(fr, s[1], v, st, pc)
            elif s[0] == 'setdiscr':
                return [('return', FALSE, st)] if False else self._unsup(fr, 'setdiscr', st, pc)
        t = blk['t']; k = t[0]
        if k == 'goto': return [(t[1], pc, st)]
        if k == 'return': return [('return', pc, st)]
        if k == 'drop': return [(t[1], pc, st)]
        if k in ('unreachable', 'resume', 'abort', 'terminate'):
            return []
        if k == 'switch':
            d = under(self.operand(fr, t[1], st, pc), pc)
            out = []
            rest = TRUE
            if d.b:
                for val, bb in t[2]:
                    c = bnot(d) if int(val) == 0 else d
                    out.append((bb, band(pc, c), dict(st)))
                    rest = band(rest, bnot(c))
                out.append((t[3], band(pc, rest), dict(st)))
                return out
            if d.op == 'unk' or find_unk(d):
                u = mk('batom', 'unk', d)
                self.notes.append(('switch on unknown', fr.fn.id, blk.get('sp'), d))
                for i, (val, bb) in enumerate(t[2]):
                    c = mk('batom', 'unkcase', d, num(int(val)))
                    c = band(rest, c)
                    out.append((bb, band(pc, c), dict(st)))
                    rest = band(rest, bnot(c))
                out.append((t[3], band(pc, rest), dict(st)))
                return out
            for val, bb in t[2]:
                c = eq(d, num(int(val)))
                out.append((bb, band(pc, rest, c), dict(st)))
                rest = band(rest, bnot(c))
            out.append((t[3], band(pc, rest), dict(st)))
            return out
        if k == 'assert':
            c = under(self.operand(fr, t[1], st, pc), pc)
            if not t[2]: c = bnot(c) if c.b else unk('not')
            detail = None
            if t[3][0] == 'bounds':
                detail = (self.operand(fr, t[3][1], st, pc), self.operand(fr, t[3][2], st, pc))
                if not c.b: c = lt(detail[1], detail[0])
            if c.b:
                self.obligation('bounds' if t[3][0] == 'bounds' else 'assert:' + str(t[3][0]), fr, t[5], pc, c, detail)
                if band(pc, c) is FALSE: return []
            return [(t[4], pc, st)]
        if k == 'call':
            return self.term_call(fr, t, pc, st)
        return self._unsup(fr, 'terminator ' + k, st, pc)

    def _unsup(self, fr, why, st, pc):
        raise Undecided('%s in %s' % (why, fr.fn.id))

    def obligation(self, kind, fr, span, pc, cond, detail=None):
        if cond is TRUE or (cond.op != 'unk' and implies_b(pc, cond)):
            self.obls.append(Obl(kind, fr.fn.id if fr else None, span, pc, TRUE, detail, tuple(s[0] for s in self.stack)))
        else:
            self.obls.append(Obl(kind, fr.fn.id if fr else None, span, pc, cond, detail, tuple(s[0] for s in self.stack)))

    # ------------------------------------------------------------ types
    def lty(self, fr, l):
        return self.env.norm(ty_subst(self._tup(fr, l), fr.sub))

    def _tup(self, fr, l):
        c = fr.body.setdefault('_lt', {})
        t = c.get(l)
        if t is None:
            from mir import tup
            t = c[l] = tup(fr.body['locals'][l])
        return t

    def ty(self, fr, raw):
        from mir import tup
        return self.env.norm(ty_subst(tup(raw), fr.sub))

    def pty(self, fr, place):
        """type of a place and pending variant"""
        t = self.lty(fr, place[0])
        var = None
        for p in place[1]:
            t, var = self.step_ty(t, p, var)
        return t

    def step_ty(self, t, p, var):
        k = p[0]
        if k == 'deref':
            if t[0] in ('ref', 'ptr'): return t[1], None
            if t[0] == 'adt' and t[1].endswith('::Box'): return t[2][0], None
            return ('other', 'deref'), None
        if k == 'field':
            return self.field_ty(t, var, p[1]), None
        if k in ('index', 'cindex'):
            return (t[1] if t[0] in ('array', 'slice') else ('other', 'index')), None
        if k == 'downcast': return t, p[1]
        return t, None

    def field_ty(self, t, var, i):
        if t[0] == 'tuple': return t[1][i] if i < len(t[1]) else ('other', 'f')
        if t[0] == 'adt':
            a = self.prog.adts.get(t[1])
            if a:
                fs = a['variants'][var or 0][1]
                if i < len(fs):
                    sub = {g[2]: x for g, x in zip(a['generics'], t[2])}
                    return self.env.norm(ty_subst(fs[i][1], sub))
        if t[0] == 'closure':
            u = self.uptys.get(t[1], ())
            return u[i] if i < len(u) else ('other', 'upvar')
        return ('other', 'field')

    def nvariants(self, t):
        if t[0] == 'adt':
            a = self.prog.adts.get(t[1])
            if a: return len(a['variants'])
        return None

    # ------------------------------------------------------------ memory
    def read(self, r, st, pc=TRUE):
        """dereference"""
        op = r.op
        if op == 'ref': return st.get(r.a[0], unk('dangling cell'))
        if op == 'refv': return r.a[0]
        if op == 'rfld': return field(under(self.read(r.a[0], st, pc), pc), r.a[1], r.a[2])
        if op == 'rsel': return sel(under(self.read(r.a[0], st, pc), pc), r.a[1])
        if op == 'rsub': # subslice view from offset
            base = self.read(r.a[0], st, pc)
            return subslice(base, r.a[1], r.a[2])
        if op == 'ite': return ite(r.a[0], self.read(r.a[1], st, pc), self.read(r.a[2], st, pc))
        if op == 'bot': return BOT
        if op == 'adt' and r.a[0].endswith('::Box') : return r.a[2]
        if op == 'box': return r.a[0]
        if op == 'unk': return r
        return mk('deref', r)

    def write(self, r, v, st, pc):
        op = r.op
        if op == 'ref':
            st = dict(st); st[r.a[0]] = v; return st
        if op == 'rfld':
            base = under(self.read(r.a[0], st, pc), pc)
            return self.write(r.a[0], setfield(base, r.a[1], r.a[2], v), st, pc)
        if op == 'rsel':
            base = under(self.read(r.a[0], st, pc), pc)
            return self.write(r.a[0], upd(base, r.a[1], v), st, pc)
        if op == 'rsub':
            base = self.read(r.a[0], st, pc)
            return self.write(r.a[0], splice(base, r.a[1], r.a[2], v), st, pc)
        if op == 'ite':
            c = r.a[0]
            st = self.write(r.a[1], ite(c, v, self.read(r.a[1], st, pc)), st, pc)
            return self.write(r.a[2], ite(c, self.read(r.a[2], st, pc), v), st, pc)
        if op == 'bot': return st
        self.notes.append(('write through unknown reference', self.stack[-1][0] if self.stack else '', None, r))
        st = dict(st); st['#lost'] = unk('write through unknown reference')
        return st

    def place_ref(self, fr, place, st, pc):
        """reference term denoting a place"""
        r = mk('ref', (fr.fid, place[0]))
        var = None
        for p in place[1]:
            k = p[0]
            if k == 'deref':
                v = under(self.read(r, st, pc), pc)
                if v.op == 'box' or (v.op == 'adt' and v.a[0].endswith('::Box')):
                    r = mk('refv', self.read(v, st, pc))
                else:
                    r = self.asref(v)
                var = None
            elif k == 'field':
                r = self.rfield(r, var, p[1]); var = None
            elif k == 'downcast': var = p[1]
            elif k == 'index':
                i = under(st.get((fr.fid, p[1]), BOT), pc)
                r = self.rindex(r, i); var = None
            elif k == 'cindex':
                if p[2]:
                    n = alen(self.read(r, st, pc))
                    r = self.rindex(r, sub(n, num(p[1])))
                else:
                    r = self.rindex(r, num(p[1]))
            elif k == 'subslice':
                n = alen(self.read(r, st, pc))
                end = sub(n, num(p[2])) if p[3] else num(p[2])
                r = mk('rsub', r, num(p[1]), end)
            else:
                raise Undecided('projection ' + k)
        return r

    def asref(self, v):
        return v

    def rfield(self, r, var, i):
        if r.op == 'refv': return mk('refv', field(r.a[0], var, i))
        if r.op == 'ite': return ite(r.a[0], self.rfield(r.a[1], var, i), self.rfield(r.a[2], var, i))
        if r.op == 'bot': return BOT
        if r.op in ('ref', 'rfld', 'rsel', 'rsub'): return mk('rfld', r, var or 0 if var is not None else None, i)
        return mk('refv', field(mk('deref', r), var, i))

    def rindex(self, r, i):
        if r.op == 'refv': return mk('refv', sel(r.a[0], i))
        if r.op == 'ite': return ite(r.a[0], self.rindex(r.a[1], i), self.rindex(r.a[2], i))
        if r.op == 'bot': return BOT
        if i.op == 'ite': return ite(i.a[0], self.rindex(r, i.a[1]), self.rindex(r, i.a[2]))
        if r.op in ('ref', 'rfld', 'rsel', 'rsub'): return mk('rsel', r, i)
        return mk('refv', sel(mk('deref', r), i))

    def read_place(self, fr, place, st, pc):
        v = st.get((fr.fid, place[0]))
        if v is None:
            v = BOT if place[1] else mk('tup')
        if not place[1]:
            return under(v, pc)
        var = None
        for p in place[1]:
            v = under(v, pc)
            k = p[0]
            if k == 'deref': v = self.read(v, st, pc); var = None
            elif k == 'field': v = field(v, var, p[1]); var = None
            elif k == 'downcast': var = p[1]
            elif k == 'index': v = sel(v, under(st.get((fr.fid, p[1]), BOT), pc)); var = None
            elif k == 'cindex':
                v = sel(v, sub(alen(v), num(p[1])) if p[2] else num(p[1])); var = None
            elif k == 'subslice':
                n = alen(v)
                v = subslice(v, num(p[1]), sub(n, num(p[2])) if p[3] else num(p[2]))
            else: raise Undecided('projection ' + k)
        return under(v, pc)

    def assign(self, fr, place, v, st, pc):
        if not place[1]:
            st = dict(st) if False else st
            st[(fr.fid, place[0])] = v
            return st
        r = self.place_ref(fr, place, st, pc)
        return self.write(r, v, st, pc)

    # ------------------------------------------------------------ operands
    def operand(self, fr, o, st, pc):
        k = o[0]
        if k in ('copy', 'move'): return self.read_place(fr, o[1], st, pc)
        return self.constant(fr, o, st, pc)

    def constant(self, fr, o, st, pc):
        k = o[1]
        if k == 'fn':
            t = self.ty(fr, o[2])
            return mk('fn', t[1], t[2])
        if k == 'val':
            return self.const_val(fr, o[2], self.ty(fr, o[3]))
        if k == 'tyconst':
            return self.ty_const(self.ty(fr, o[2]) if False else ty_subst(_tupq(o[2]), fr.sub))
        if k == 'promoted':
            fn = self.prog.fns.get(o[2]) or fr.fn
            body = fn.promoted[o[3]]
            if isinstance(body, dict) and 'body' in body: body = body['body']
            ret, st2, c = self.run_body(fn, body, fr.sub, [], st, pc)
            return ret if ret.op in ('ref', 'refv') and ret.op == 'refv' else self.freeze(ret, st2)
        if k == 'uneval':
            return self.uneval(fr, o)
        return unk('const ' + str(k))

    def freeze(self, v, st):
        """turn references to dead temporaries into references to values"""
        if v.op == 'ref': return mk('refv', self.freeze(self.read(v, st), st))
        if v.op in ('tup', 'adt', 'arrlit', 'clo'):
            return build(v.op, *[self.freeze(x, st) if x.__class__ is T else x for x in v.a])
        return v

    def ty_const(self, c):
        if c[0] == 'cval': return num(int(c[1]))
        if c[0] == 'cparam':
            n = SMALL(c[1]) if SMALL is not None else None
            return sym('const', c[1]) if n is None else num(n)
        return sym('constexpr', str(c))

    def uneval(self, fr, o):
        cid = o[2]
        args = tuple(self.env.norm(ty_subst(x, fr.sub)) for x in _tupq(o[3]))
        d = self.prog.defs.get(cid, {})
        if d.get('trait'):
            tr = self.prog.traits.get(d['trait'])
            m = self.env.find_impl(d['trait'], args[:len(tr['generics'])] if tr else args)
            name = d.get('name')
            if m:
                im, sub = m
                it = im.consts.get(name)
                if it:
                    cb = self.prog.consts.get(it[2])
                    if cb:
                        fn = _ConstFn(cb, it[2])
                        ret, _, _ = self.run_body(fn, cb['body'], {g[2]: sub.get(g[2]) for g in fn.generics}, [], {}, TRUE)
                        return ret
            return sym('aconst', cid.split('::')[-1], args)
        cb = self.prog.consts.get(cid)
        if cb:
            fn = _ConstFn(cb, cid)
            ret, st2, _ = self.run_body(fn, cb['body'], {g[2]: a for g, a in zip(fn.generics, args)}, [], {}, TRUE)
            return self.freeze(ret, st2)
        if len(o) > 5 and o[5]:
            return self.const_val(fr, o[5], self.ty(fr, o[4]))
        return unk('const ' + cid)

    def const_val(self, fr, v, t):
        k = v[0]
        if k == 'bits':
            n = int(v[1])
            if t[0] == 'prim':
                p = t[1]
                if p == 'bool': return TRUE if n else FALSE
                if p in ('f32', 'f64'):
                    import struct
                    x = struct.unpack('<f' if p == 'f32' else '<d', n.to_bytes(v[2], 'little'))[0]
                    if x != x: return mk('nan')
                    if x in (float('inf'), float('-inf')): return INF if x > 0 else neg(INF)
                    from fractions import Fraction
                    return num(Fraction(repr(x)))
                if p.startswith('i') and n >= 1 << (8 * v[2] - 1): n -= 1 << (8 * v[2])
                if p == 'char': return mk('chr', n)
                return num(n)
            if t[0] == 'adt':
                a = self.prog.adts.get(t[1])
                if a and a.get('enum'):
                    for i, var in enumerate(a['variants']):
                        if int(var[2]) == n: return self.adt(t, i)
                if a and len(a['variants']) == 1 and len(a['variants'][0][1]) == 1:
                    return self.adt(t, 0, self.const_val(fr, v, self.field_ty(t, 0, 0)))
            return num(n) if t[0] in ('other',) else unk('bits const of ' + ty_show(t))
        if k == 'zst':
            if t[0] == 'fndef': return mk('fn', t[1], t[2])
            if t[0] == 'tuple': return mk('tup', *[self.const_val(fr, v, x) for x in t[1]])
            if t[0] == 'closure': return mk('clo', t[1], t[2])
            if t[0] == 'adt':
                a = self.prog.adts.get(t[1])
                n = len(a['variants'][0][1]) if a and a['variants'] else 0
                return self.adt(t, 0, *[self.const_val(fr, v, self.field_ty(t, 0, i)) for i in range(n)])
            if t[0] == 'array': return arrlit()
            return sym('zst', ty_show(t))
        if k == 'str': return mk('refv', string(v[1]))
        if k == 'bytes': return mk('refv', arrlit(*[num(x) for x in v[1]]))
        if k == 'refbits':
            inner = t[1] if t[0] == 'ref' else t
            return mk('refv', self.const_val(fr, ['bits'] + list(v[1:]), inner))
        return unk('const value ' + k)

    def adt(self, t, var, *fields):
        if t[1] not in tm.ADTNAMES:
            a = self.prog.adts.get(t[1])
            if a: tm.ADTNAMES[t[1]] = [x[0] for x in a['variants']]
        return mk('adt', t[1], var, *fields)

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, rv, st, pc, stmt):
        k = rv[0]
        if k == 'use': return self.operand(fr, rv[1], st, pc), st
        if k == 'ref' or k == 'rawptr':
            return self.place_ref(fr, rv[2] if k == 'ref' else rv[1], st, pc), st
        if k == 'bin': return self.binop(fr, rv, st, pc), st
        if k == 'un':
            v = under(self.operand(fr, rv[2], st, pc), pc)
            if rv[1] == 'Not':
                return (bnot(v) if v.b else app1('bitnot', v)), st
            if rv[1] == 'Neg': return lift(v, neg), st
            if rv[1] == 'PtrMetadata':
                inner = self.read(v, st, pc)
                return alen(inner), st
            return unk('unop ' + rv[1]), st
        if k == 'discr':
            t = self.pty(fr, rv[1])
            v = self.read_place(fr, rv[1], st, pc)
            return self.discr(v, t), st
        if k == 'agg': return self.aggregate(fr, rv, st, pc), st
        if k == 'repeat':
            v = self.operand(fr, rv[1], st, pc)
            n = self.ty_const(ty_subst(_tupq(rv[2]), fr.sub))
            return arr(n, mk('lam', v.h + 1, v)), st
        if k == 'cast':
            return self.cast(fr, rv, st, pc), st
        return unk('rvalue ' + k), st

    def discr(self, v, t):
        n = self.nvariants(t)
        def leaf(x):
            if x.op == 'adt':
                a = self.prog.adts.get(x.a[0])
                return num(int(a['variants'][x.a[1]][2])) if a else num(x.a[1])
            if x.op == 'unk': return x
            if n is None: return unk('discriminant of ' + ty_show(t))
            a = self.prog.adts.get(t[1])
            r = num(int(a['variants'][n - 1][2]))
            for j in range(n - 2, -1, -1):
                r = ite(mk('isvar', x, j), num(int(a['variants'][j][2])), r)
            return r
        return lift(v, leaf)

    def aggregate(self, fr, rv, st, pc):
        kind = rv[1]
        ops = [self.operand(fr, o, st, pc) for o in rv[2]]
        k = kind[0]
        if k == 'tuple': return mk('tup', *ops)
        if k == 'array': return arrlit(*ops)
        if k == 'adt':
            return self.adt(('adt', kind[1][1], ()), kind[2], *ops)
        if k == 'closure':
            t = tuple(self.env.norm(ty_subst(x, fr.sub)) for x in _tupq(kind[2]))
            self.uptys[kind[1]] = [self.oty(fr, o) for o in rv[2]]
            return mk('clo', kind[1], t, *ops)
        return unk('aggregate ' + str(k))

    def oty(self, fr, o):
        """type of an operand"""
        if o[0] in ('copy', 'move'): return self.pty(fr, o[1])
        if o[1] == 'val': return self.ty(fr, o[3])
        return ('other', 'operand')

    def cast(self, fr, rv, st, pc):
        v = self.operand(fr, rv[2], st, pc)
        k = rv[1]
        if k.startswith('PointerCoercion') or k in ('PtrToPtr', 'FnPtrToPtr', 'Subtype'): return v
        if k == 'Transmute': return self.transmute(fr, v, self.ty(fr, rv[3]), pc, rv)
        s = self.oty(fr, rv[2]); d = self.ty(fr, rv[3])
        if s[0] == 'prim' and d[0] == 'prim':
            a, b = s[1], d[1]
            if a == b: return v
            if a == 'bool': return b_ite_num(v)
            if a in WIDTH and b in WIDTH:
                if WIDTH[a][1] <= WIDTH[b][1] and (not WIDTH[a][0] or WIDTH[b][0]) and (WIDTH[a][0] == WIDTH[b][0] or WIDTH[a][1] < WIDTH[b][1]): return v
            elif a in WIDTH and b in ('f32', 'f64'): return v
            elif (a, b) == ('f32', 'f64'): return v
        if v.op == 'num' and k == 'IntToInt' and d[0] == 'prim' and d[1] in WIDTH:
            lo, hi = (-(1 << WIDTH[d[1]][1] - 1), 1 << WIDTH[d[1]][1] - 1) if WIDTH[d[1]][0] else (0, 1 << WIDTH[d[1]][1])
            if lo <= v.a[0] < hi: return v
        return unk('cast %s from %s to %s' % (k, ty_show(s), ty_show(d)))

    def transmute(self, fr, v, t, pc, rv):
        """reinterpretation: identity when source and target are the same sequence of values of one primitive type"""
        want = self.prims(t); have = self.prims(self.oty(fr, rv[2])); vs = flat_values(v)
        good = want is not None and have is not None and want == have and vs is not None and len(vs) == want[1]
        c = TRUE if good else FALSE if want is not None and have is not None else unk('transmute to %s' % ty_show(t))
        self.obligation('unsafe-transmute', fr, fr.span, pc, c)
        return self.rebuild(t, vs) if good else unk('transmute')

    def prims(self, t):
        """(primitive, count) of a type laid out as a sequence of one primitive"""
        t = self.env.norm(t)
        if t[0] == 'prim' and t[1] in WIDTH: return (t, 1)
        if t[0] == 'array':
            n = self.ty_const(t[2]); e = self.prims(t[1])
            return None if n.op != 'num' or e is None else (e[0], e[1] * int(n.a[0]))
        if t[0] == 'adt' and self.prog.adts.get(t[1], {}).get('repr_c'):
            es = [self.prims(self.field_ty(t, 0, i)) for i in range(len(self.prog.adts[t[1]]['variants'][0][1]))]
            if not es or any(e is None or e[0] != es[0][0] for e in es): return None
            return (es[0][0], sum(e[1] for e in es))
        return None

    def rebuild(self, t, vs):
        t = self.env.norm(t)
        if t[0] != 'array': return vs[0]
        n = int(self.ty_const(t[2]).a[0]); k = len(vs) // n if n else 0
        return arrlit(*[self.rebuild(t[1], vs[i * k:(i + 1) * k]) for i in range(n)])

    def binop(self, fr, rv, st, pc):
        op = rv[1]
        x = under(self.operand(fr, rv[2], st, pc), pc); y = under(self.operand(fr, rv[3], st, pc), pc)
        if op in ('Sub', 'SubWithOverflow') and lt(x, y) is not FALSE:
            t = self.oty(fr, rv[2])
            if t[0] != 'prim': t = self.oty(fr, rv[3])
            if t[0] == 'prim' and t[1] in WIDTH and not WIDTH[t[1]][0] and x.op not in ('unk', 'bot') and y.op not in ('unk', 'bot'):
                self.obligation('underflow', fr, fr.span, pc, bnot(lift2(lt, x, y)), (x, y))
        if op in ('Div', 'Rem') and x.op not in ('unk', 'bot') and y.op not in ('unk', 'bot'):
            t = self.oty(fr, rv[2])
            if t[0] == 'prim' and t[1] in WIDTH:
                if WIDTH[t[1]][0] and not (x.op == 'num' and y.op == 'num'): return unk('signed division')
                if x.op == 'num' and y.op == 'num' and y is not ZERO:
                    p, q = int(x.a[0]), int(y.a[0]); d = abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1)
                    return num(d if op == 'Div' else p - q * d)
                if op == 'Div': return lift2(BUILD['idiv'], x, y)
        return self.bin_apply(op, x, y)

    def bin_apply(self, op, x, y):
        f = BIN.get(op)
        if f is None: return unk('binop ' + op)
        if op.endswith('WithOverflow'):
            return mk('tup', lift2(f, x, y), FALSE)
        return lift2(f, x, y)

    # ------------------------------------------------------------ calls
    def term_call(self, fr, t, pc, st):
        _, func, args, dest, target, resolved = t[:6]
        span = t[6] if len(t) > 6 else None
        av = [self.operand(fr, a, st, pc) for a in args]
        self.calls += 1
        if func[0] == 'const' and func[1] == 'fn':
            fty = self.ty(fr, func[2])
            fid, fargs = fty[1], fty[2]
            rfid = None
            if resolved:
                rfid = resolved[0]
                rargs = tuple(self.env.norm(ty_subst(x, fr.sub)) for x in _tupq(resolved[1]))
                ret, st2, c = self.dispatch(fr, fid, fargs, av, st, pc, span, (rfid, rargs))
            else:
                ret, st2, c = self.dispatch(fr, fid, fargs, av, st, pc, span, None)
        else:
            fv = self.operand(fr, func, st, pc)
            ret, st2, c = self.call_value(fv, av, st, pc, span, fr)
        if target is None or c is FALSE or ret.op == 'bot':
            if target is None and c is not FALSE:
                self.obligation('panic', fr, span, c, FALSE, detail=str(func[2][1]) if func[0] == 'const' else None)
            return []
        st2 = self.assign(fr, dest, ret, dict(st2), c)
        return [(target, c, st2)]

    def dispatch(self, fr, fid, fargs, av, st, pc, span, resolved):
        """call of a named function with substituted type arguments"""
        # 1. models keyed by the callee as named in the source (trait method or function)
        m = self.models.get(fid)
        if m is not None:
            r = m(self, Call(fr, fid, fargs, av, span), st, pc)
            if r is not NotImplemented: return self._ret(r, st, pc)
        if resolved is not None:
            m = self.models.get(resolved[0])
            if m is not None:
                r = m(self, Call(fr, resolved[0], resolved[1], av, span), st, pc)
                if r is not NotImplemented: return self._ret(r, st, pc)
        # 2. resolution after substitution
        d = self.prog.defs.get(fid, {})
        if d.get('trait'):
            tr = self.prog.traits.get(d['trait'])
            if tr:
                n = len(tr['generics'])
                got = self.env.find_impl(d['trait'], fargs[:n])
                if got:
                    im, sub = got
                    target = im.fns.get(d['name'])
                    if target:
                        tf = self.prog.fns.get(target)
                        if tf:
                            own = [g for g in tf.generics if g not in im.generics]
                            s2 = dict(sub)
                            for g, a in zip(own, fargs[n:]): s2[g[2]] = a
                            return self.invoke(tf, s2, av, st, pc, span)
                    else:
                        tf = self.prog.fns.get(fid)
                        if tf: return self.invoke(tf, self.fn_sub(tf, fargs), av, st, pc, span)
                elif fid in self.prog.fns and resolved is None and self.models.get('#rigid_default', lambda *a: True)(self, d['trait'], fargs):
                    # rigid receiver: a provided method may be overridden - treat as opaque unless modelled
                    pass
            elif resolved is not None and resolved[0] in self.prog.fns:
                tf = self.prog.fns[resolved[0]]
                return self.invoke(tf, self.fn_sub(tf, resolved[1]), av, st, pc, span)
            else:
                # external trait (Clone, Add, Display, ...): local impls
                got = self.env.find_impl(d['trait'], self.trait_args(d['trait'], fargs))
                if got:
                    im, sub = got
                    target = im.fns.get(d['name'])
                    tf = target and self.prog.fns.get(target)
                    if tf:
                        own = [g for g in tf.generics if g not in im.generics]
                        s2 = dict(sub)
                        for g, a in zip(own, fargs[len(im.targs):]): s2[g[2]] = a
                        return self.invoke(tf, s2, av, st, pc, span)
        if fid in self.prog.fns and not d.get('trait'):
            tf = self.prog.fns[fid]
            return self.invoke(tf, self.fn_sub(tf, fargs), av, st, pc, span)
        if resolved is not None and resolved[0] in self.prog.fns and resolved[0] != fid:
            tf = self.prog.fns[resolved[0]]
            return self.invoke(tf, self.fn_sub(tf, resolved[1]), av, st, pc, span)
        m = self.models.get('#default')
        if m is not None:
            r = m(self, Call(fr, fid, fargs, av, span), st, pc)
            if r is not NotImplemented: return self._ret(r, st, pc)
        self.notes.append(('unmodelled call', fr.fn.id if fr else None, span, fid))
        st = self.havoc(av, st, fid)
        return unk('call ' + fid), st, pc

    def trait_args(self, trait, fargs):
        im = self.prog.by_trait.get(trait)
        if im: return fargs[:len(im[0].targs)]
        return fargs

    def havoc(self, av, st, fid):
        """an unknown callee may write through its mutable reference arguments"""
        st = dict(st)
        for a in av:
            for x in leaves(a):
                if x.op in ('ref', 'rfld', 'rsel'):
                    b = x
                    while b.op != 'ref' and b.op in ('rfld', 'rsel', 'rsub'): b = b.a[0]
                    if b.op == 'ref' and b.a[0] in st:
                        st[b.a[0]] = unk('passed to ' + fid)
        return st

    def _ret(self, r, st, pc):
        if isinstance(r, tuple):
            if len(r) == 2: return r[0], r[1], pc
            return r
        return r, st, pc

    def invoke(self, fn, sub, av, st, pc, span):
        if fn.kind.startswith('Ctor'):
            return self.ctor(fn.id, av), st, pc
        if sum(1 for s in self.stack if s[0] == fn.id) > 6 or len(self.stack) > self.MAXDEPTH:
            self.notes.append(('recursion', fn.id, span, None))
            return unk('recursion at ' + fn.id), st, pc
        self.visited.add(fn.id)
        return self.run_body(fn, fn.body, sub, av, st, pc, span)

    def ctor(self, fid, av):
        p = fid.rsplit('::', 1)[0]
        a = self.prog.adts.get(p)
        if a: return self.adt(('adt', p, ()), 0, *av)
        q, name = p.rsplit('::', 1)
        a = self.prog.adts.get(q)
        if a:
            for i, v in enumerate(a['variants']):
                if v[0] == name: return self.adt(('adt', q, ()), i, *av)
        return unk('constructor ' + fid)

    def call_value(self, fv, args, st, pc, span=None, fr=None):
        """call a closure / function value with a list of arguments; returns (ret, st, cond)"""
        fv = under(fv, pc)
        if fv.op == 'ite':
            c = fv.a[0]
            r1, s1, c1 = self.call_value(fv.a[1], args, st, band(pc, c), span, fr)
            r2, s2, c2 = self.call_value(fv.a[2], args, st, band(pc, bnot(c)), span, fr)
            cond, s = self.merge([(x, y) for x, y in ((c1, s1), (c2, s2)) if x is not FALSE] or [(FALSE, st)])
            return ite(c, r1, r2), s, cond
        if fv.op in ('ref', 'refv', 'rfld', 'rsel'):
            inner = under(self.read(fv, st, pc), pc)
            if inner.op == 'clo': return self.call_closure(inner, fv, args, st, pc, span)
            return self.call_value(inner, args, st, pc, span, fr)
        if fv.op == 'clo': return self.call_closure(fv, None, args, st, pc, span)
        if fv.op == 'fn':
            if fv.a[0].endswith('{constructor#0}') or fv.a[0] + '::{constructor#0}' in self.prog.defs:
                return self.ctor(fv.a[0] if fv.a[0].endswith('{constructor#0}') else fv.a[0] + '::{constructor#0}', args), st, pc
            return self.dispatch(fr, fv.a[0], fv.a[1], args, st, pc, span, None)
        if fv.op == 'bot': return BOT, st, FALSE
        if fv.op == 'unk': return fv, st, pc
        if fv.op == 'sym':
            args = [self.deep(a, st) for a in args]
            return mk('call', fv, *args), st, pc
        if fv.op == 'natfn':
            return fv.a[0](self, args, st, pc)
        return unk('call of ' + fv.op), st, pc

    def deep(self, v, st):
        """value with references replaced by the values they denote (for opaque callees)"""
        if v.op in ('ref', 'rfld', 'rsel', 'refv', 'rsub'): return self.deep(self.read(v, st), st)
        if v.op in ('tup', 'adt', 'arrlit', 'clo'):
            return build(v.op, *[self.deep(x, st) if x.__class__ is T else x for x in v.a])
        if v.op == 'ite': return ite(v.a[0], self.deep(v.a[1], st), self.deep(v.a[2], st))
        return v

    def call_closure(self, clo, ref, args, st, pc, span):
        fn = self.prog.fns.get(clo.a[0])
        if fn is None: return unk('closure ' + clo.a[0]), st, pc
        t1 = fn.body['locals'][1]
        self.visited.add(fn.id)
        if t1[0] == 'ref':
            if ref is None:
                # place the closure in a temporary cell
                self.fidc += 1
                key = (self.fidc, 0)
                st = dict(st); st[key] = clo
                ref = mk('ref', key)
            a = [ref]
        else:
            a = [clo]
        if len(self.stack) > self.MAXDEPTH or sum(1 for s in self.stack if s[0] == fn.id) > 6:
            return unk('recursion at ' + fn.id), st, pc
        return self.run_body(fn, fn.body, self.fn_sub(fn, clo.a[1]), a + list(args), st, pc, span)

    # ------------------------------------------------------------ pure application over a symbolic element
    def map_body(self, fv, mkargs, st, pc, n=None):
        """apply closure fv to a symbolic element; returns (var, result, effect_free)"""
        v = fresh()
        if n is not None: self.ranges[v] = (ZERO, n)
        r, st2, c = self.call_value(fv, mkargs(v), st, pc)
        for k, x in st.items():
            if st2.get(k) is not x:
                return v, unk('closure with side effects in iterator adaptor'), st2
        if c is not pc and r.op != 'bot': pass
        return v, self.freeze_temps(r, st2, st), st2

    def freeze_temps(self, v, st2, st):
        def go(x):
            if x.op == 'ref' and x.a[0] not in st: return mk('refv', go(self.read(x, st2)))
            if x.op in ('tup', 'adt', 'arrlit', 'clo', 'ite'):
                return build(x.op, *[go(y) if y.__class__ is T else y for y in x.a])
            return x
        return go(v)

    # ------------------------------------------------------------ loops
    def loop(self, fr, h, L, pc, st):
        from loops import summarise
        return summarise(self, fr, h, L, pc, st)

class Call:
    __slots__ = ('fr', 'fid', 'targs', 'a', 'span')
    def __init__(self, fr, fid, targs, a, span):
        self.fr = fr; self.fid = fid; self.targs = targs; self.a = a; self.span = span

class _ConstFn:
    def __init__(self, d, cid):
        from mir import tup
        self.id = cid; self.generics = tup(d.get('generics') or []); self.cfg = {}; self.promoted = d.get('promoted') or []
        self.kind = 'Const'

def _tupq(x):
    from mir import tup
    return tup(x)

def lift2(f, x, y):
    if x.op == 'ite' and not x.b: return ite(x.a[0], lift2(f, x.a[1], y), lift2(f, x.a[2], y))
    if y.op == 'ite' and not y.b: return ite(y.a[0], lift2(f, x, y.a[1]), lift2(f, x, y.a[2]))
    if x.op == 'bot' or y.op == 'bot': return BOT
    if x.op == 'unk': return x
    if y.op == 'unk': return y
    return f(x, y)

def app1(op, *a):
    return mk(op, *a)

def subslice(base, lo, hi):
    if base.op == 'ite': return ite(base.a[0], subslice(base.a[1], lo, hi), subslice(base.a[2], lo, hi))
    if base.op == 'arrlit' and lo.op == 'num' and hi.op == 'num':
        return arrlit(*base.a[int(lo.a[0]):int(hi.a[0])])
    v = fresh()
    return arr(sub(hi, lo), lam(v, sel(base, add(v, lo))))

def splice(base, lo, hi, new):
    if base.op == 'arrlit' and lo.op == 'num' and hi.op == 'num':
        xs = list(base.a)
        for k in range(int(lo.a[0]), int(hi.a[0])): xs[k] = sel(new, num(k - int(lo.a[0])))
        return arrlit(*xs)
    v = fresh()
    return arr(alen(base), lam(v, ite(band(le(lo, v), lt(v, hi)), sel(new, sub(v, lo)), sel(base, v))))

def _int(x): return x.op == 'num' and x.a[0].denominator == 1 and 0 <= x.a[0] < 1 << 64
def _shl(x, y):
    if _int(y) and y.a[0] < 63: return mul(x, num(2 ** int(y.a[0]))) if _int(x) and x.a[0] * 2 ** int(y.a[0]) < 1 << 64 else app1('shl', x, y)
    return app1('shl', x, y)
def _shr(x, y): return num(int(x.a[0]) >> int(y.a[0])) if _int(x) and _int(y) and y.a[0] < 64 else app1('shr', x, y)
def _bitand(x, y): return band(x, y) if x.b and y.b else app1('bitand', x, y)
def _bitor(x, y): return bor(x, y) if x.b and y.b else app1('bitor', x, y)
def _bitxor(x, y): return b_ite(x, bnot(y), y) if x.b and y.b else app1('bitxor', x, y)
BIN = {'Add': add, 'Sub': sub, 'Mul': mul, 'Div': div, 'AddWithOverflow': add, 'SubWithOverflow': sub, 'MulWithOverflow': mul,
       'AddUnchecked': add, 'SubUnchecked': sub,
       'Eq': eq, 'Ne': lambda x, y: bnot(eq(x, y)), 'Lt': lt, 'Le': le, 'Gt': lambda x, y: lt(y, x), 'Ge': lambda x, y: le(y, x),
       'BitAnd': _bitand, 'Shl': _shl, 'Shr': _shr, 'ShlUnchecked': _shl, 'ShrUnchecked': _shr, 'BitOr': _bitor, 'BitXor': _bitxor, 'Rem': lambda x, y: app1('rem', x, y)}
