"""Transfer functions of std / num-traits / itertools / array-init callees (trusted)."""
import re
from terms import *
import terms as tm
from loops import dig, prodof, mkfold, fold_of, sum_, prod_, any_, nonneg
from interp import lift2

M = {}
def model(*names):
    def d(f):
        for n in names: M[n] = f
        return f
    return d

_keyc = {}
def key_of(prog, fid):
    k = _keyc.get(fid)
    if k is None:
        d = prog.defs.get(fid)
        p = d['pretty'] if d else fid
        # strip generic argument lists
        out = []; depth = 0; i = 0
        while i < len(p):
            if p[i] == '<': depth += 1
            elif p[i] == '>' and p[i-1] != '-': depth -= 1
            elif depth == 0: out.append(p[i])
            i += 1
        k = ''.join(out)
        k = re.sub(r'(::)+', '::', k.replace('::::', '::')).strip(':')
        if d and not d.get('crate', '').startswith('aegir'):
            k = re.sub(r'^(core|alloc)::', 'std::', k)
        _keyc[fid] = k
    return k

class Models:
    def __init__(self, prog, extra=None):
        self.prog = prog; self.extra = extra or {}
        self.cache = {}
    def get(self, fid, default=None):
        if fid in self.extra: return self.extra[fid]
        if fid.startswith('#'): return default
        if fid in M: return M[fid]
        return M.get(key_of(self.prog, fid), default)

OPT = 'core::option::Option'; RES = 'core::result::Result'; CF = 'core::ops::control_flow::ControlFlow'
tm.ADTNAMES[OPT] = ['None', 'Some']; tm.ADTNAMES[RES] = ['Ok', 'Err']; tm.ADTNAMES[CF] = ['Continue', 'Break']
def none(): return mk('adt', OPT, 0)
def some(x): return mk('adt', OPT, 1, x)
def ok(x): return mk('adt', RES, 0, x)
def err(x): return mk('adt', RES, 1, x)
UNIT = mk('tup')

def cases(ip, v, st, pc, n, fs):
    """case split on an n-variant enum value; fs[k](payload-getter, st, pc) -> (ret, st, cond)"""
    v = under(v, pc)
    outs = []
    if v.op == 'unk':
        st = ip.havoc([], st, '')
        return unk('case split on unknown', v), st, pc
    for k in range(n):
        c = variant_is(v, k, n)
        pk = band(pc, c)
        if pk is FALSE: continue
        vk = under(v, pk)
        r, s, cc = fs[k](lambda i=0, vk=vk, k=k: field(vk, k, i), st, pk)
        if cc is FALSE: continue
        outs.append((cc, s, r))
    if not outs: return BOT, st, FALSE
    from interp import constrain
    cond, s = ip.merge([(c, dict(s, **{'#r': r})) for c, s, r in outs])
    r = s.pop('#r')
    return r, s, cond

def callv(ip, f, args, st, pc, c=None):
    return ip.call_value(f, args, st, pc, c and c.span, c and c.fr)

def deref_all(ip, v, st, pc=TRUE):
    v = under(v, pc)
    while v.op in ('ref', 'refv', 'rfld', 'rsel', 'rsub', 'box'):
        v = under(ip.read(v, st, pc), pc)
    if v.op == 'ite': return ite(v.a[0], deref_all(ip, v.a[1], st, pc), deref_all(ip, v.a[2], st, pc))
    return v

# ------------------------------------------------------------------ Option / Result
def const_ret(x):
    return lambda g, st, pc: (x, st, pc)

def deff(names, n, *fns):
    pass

@model('std::option::Option::map')
def opt_map(ip, c, st, pc):
    def s(g, st, pc):
        r, st, cc = callv(ip, c.a[1], [g()], st, pc, c); return some(r), st, cc
    return cases(ip, c.a[0], st, pc, 2, [const_ret(none()), s])
@model('std::option::Option::and_then')
def opt_and_then(ip, c, st, pc):
    return cases(ip, c.a[0], st, pc, 2, [const_ret(none()), lambda g, st, pc: callv(ip, c.a[1], [g()], st, pc, c)])
@model('std::option::Option::map_or')
def opt_map_or(ip, c, st, pc):
    return cases(ip, c.a[0], st, pc, 2, [const_ret(c.a[1]), lambda g, st, pc: callv(ip, c.a[2], [g()], st, pc, c)])
@model('std::option::Option::map_or_else')
def opt_map_or_else(ip, c, st, pc):
    return cases(ip, c.a[0], st, pc, 2, [lambda g, st, pc: callv(ip, c.a[1], [], st, pc, c), lambda g, st, pc: callv(ip, c.a[2], [g()], st, pc, c)])
@model('std::option::Option::ok_or')
def opt_ok_or(ip, c, st, pc):
    return cases(ip, c.a[0], st, pc, 2, [const_ret(err(c.a[1])), lambda g, st, pc: (ok(g()), st, pc)])
@model('std::option::Option::ok_or_else')
def opt_ok_or_else(ip, c, st, pc):
    def n(g, st, pc):
        r, st, cc = callv(ip, c.a[1], [], st, pc, c); return err(r), st, cc
    return cases(ip, c.a[0], st, pc, 2, [n, lambda g, st, pc: (ok(g()), st, pc)])
@model('std::option::Option::is_some')
def opt_is_some(ip, c, st, pc): return variant_is(deref_all(ip, c.a[0], st, pc), 1, 2)
@model('std::option::Option::is_none')
def opt_is_none(ip, c, st, pc): return variant_is(deref_all(ip, c.a[0], st, pc), 0, 2)
@model('std::result::Result::is_ok')
def res_is_ok(ip, c, st, pc): return variant_is(deref_all(ip, c.a[0], st, pc), 0, 2)
@model('std::result::Result::is_err')
def res_is_err(ip, c, st, pc): return variant_is(deref_all(ip, c.a[0], st, pc), 1, 2)

def unwrap_like(kind, good):
    def f(ip, c, st, pc):
        v = under(c.a[0], pc)
        g = variant_is(v, good, 2)
        ip.obligation(kind, c.fr, c.span, pc, g, v)
        pk = band(pc, g)
        if v.op == 'unk': return v
        if pk is FALSE: return BOT, st, FALSE
        return field(under(v, pk), good, 0), st, pk
    return f
M['std::option::Option::unwrap'] = unwrap_like('unwrap', 1)
M['std::option::Option::expect'] = unwrap_like('unwrap', 1)
M['std::result::Result::unwrap'] = unwrap_like('unwrap', 0)
M['std::result::Result::expect'] = unwrap_like('unwrap', 0)
M['std::result::Result::unwrap_unchecked'] = unwrap_like('unsafe-unwrap', 0)
M['std::option::Option::unwrap_unchecked'] = unwrap_like('unsafe-unwrap', 1)
M['std::result::Result::unwrap_err'] = unwrap_like('unwrap', 1)

@model('std::option::Option::unwrap_or')
def opt_unwrap_or(ip, c, st, pc):
    return cases(ip, c.a[0], st, pc, 2, [const_ret(c.a[1]), lambda g, st, pc: (g(), st, pc)])
@model('std::option::Option::unwrap_or_else')
def opt_unwrap_or_else(ip, c, st, pc):
    return cases(ip, c.a[0], st, pc, 2, [lambda g, st, pc: callv(ip, c.a[1], [], st, pc, c), lambda g, st, pc: (g(), st, pc)])
@model('std::option::Option::or_else')
def opt_or_else(ip, c, st, pc):
    return cases(ip, c.a[0], st, pc, 2, [lambda g, st, pc: callv(ip, c.a[1], [], st, pc, c), lambda g, st, pc: (some(g()), st, pc)])
@model('std::option::Option::or')
def opt_or(ip, c, st, pc):
    return cases(ip, c.a[0], st, pc, 2, [const_ret(c.a[1]), lambda g, st, pc: (some(g()), st, pc)])
@model('std::option::Option::as_ref', 'std::option::Option::as_mut', 'std::option::Option::as_deref')
def opt_as_ref(ip, c, st, pc):
    r = c.a[0]
    v = under(ip.read(r, st, pc), pc)
    return cases(ip, v, st, pc, 2, [const_ret(none()), lambda g, st, pc: (some(ip.rfield(r, 1, 0)), st, pc)])
@model('std::option::Option::cloned', 'std::option::Option::copied')
def opt_cloned(ip, c, st, pc):
    return cases(ip, c.a[0], st, pc, 2, [const_ret(none()), lambda g, st, pc: (some(ip.read(g(), st, pc)), st, pc)])
@model('std::option::Option::take')
def opt_take(ip, c, st, pc):
    v = ip.read(c.a[0], st, pc)
    return v, ip.write(c.a[0], none(), st, pc), pc
@model('std::option::Option::replace')
def opt_replace(ip, c, st, pc):
    v = ip.read(c.a[0], st, pc)
    return v, ip.write(c.a[0], some(c.a[1]), st, pc), pc
@model('std::option::Option::insert')
def opt_insert(ip, c, st, pc):
    st = ip.write(c.a[0], some(c.a[1]), st, pc)
    return ip.rfield(c.a[0], 1, 0), st, pc
@model('std::result::Result::map')
def res_map(ip, c, st, pc):
    def s(g, st, pc):
        r, st, cc = callv(ip, c.a[1], [g()], st, pc, c); return ok(r), st, cc
    return cases(ip, c.a[0], st, pc, 2, [s, lambda g, st, pc: (err(g()), st, pc)])
@model('std::result::Result::map_err')
def res_map_err(ip, c, st, pc):
    def s(g, st, pc):
        r, st, cc = callv(ip, c.a[1], [g()], st, pc, c); return err(r), st, cc
    return cases(ip, c.a[0], st, pc, 2, [lambda g, st, pc: (ok(g()), st, pc), s])
@model('std::result::Result::and_then')
def res_and_then(ip, c, st, pc):
    return cases(ip, c.a[0], st, pc, 2, [lambda g, st, pc: callv(ip, c.a[1], [g()], st, pc, c), lambda g, st, pc: (err(g()), st, pc)])
@model('std::result::Result::or_else')
def res_or_else(ip, c, st, pc):
    return cases(ip, c.a[0], st, pc, 2, [lambda g, st, pc: (ok(g()), st, pc), lambda g, st, pc: callv(ip, c.a[1], [g()], st, pc, c)])
@model('std::result::Result::and')
def res_and(ip, c, st, pc):
    return cases(ip, c.a[0], st, pc, 2, [const_ret(c.a[1]), lambda g, st, pc: (err(g()), st, pc)])
@model('std::result::Result::or')
def res_or(ip, c, st, pc):
    return cases(ip, c.a[0], st, pc, 2, [lambda g, st, pc: (ok(g()), st, pc), const_ret(c.a[1])])
@model('std::result::Result::ok')
def res_ok(ip, c, st, pc):
    return cases(ip, c.a[0], st, pc, 2, [lambda g, st, pc: (some(g()), st, pc), const_ret(none())])
@model('std::result::Result::err')
def res_err(ip, c, st, pc):
    return cases(ip, c.a[0], st, pc, 2, [const_ret(none()), lambda g, st, pc: (some(g()), st, pc)])
@model('std::result::Result::unwrap_or')
def res_unwrap_or(ip, c, st, pc):
    return cases(ip, c.a[0], st, pc, 2, [lambda g, st, pc: (g(), st, pc), const_ret(c.a[1])])
@model('std::result::Result::unwrap_or_else')
def res_unwrap_or_else(ip, c, st, pc):
    return cases(ip, c.a[0], st, pc, 2, [lambda g, st, pc: (g(), st, pc), lambda g, st, pc: callv(ip, c.a[1], [g()], st, pc, c)])
@model('std::result::Result::map_or_else')
def res_map_or_else(ip, c, st, pc):
    return cases(ip, c.a[0], st, pc, 2, [lambda g, st, pc: callv(ip, c.a[2], [g()], st, pc, c), lambda g, st, pc: callv(ip, c.a[1], [g()], st, pc, c)])
@model('std::result::Result::as_ref', 'std::result::Result::as_mut')
def res_as_ref(ip, c, st, pc):
    r = c.a[0]; v = under(ip.read(r, st, pc), pc)
    return cases(ip, v, st, pc, 2, [lambda g, st, pc: (ok(ip.rfield(r, 0, 0)), st, pc), lambda g, st, pc: (err(ip.rfield(r, 1, 0)), st, pc)])

@model('std::ops::Try::branch')
def try_branch(ip, c, st, pc):
    t = c.targs[0]
    isopt = t[0] == 'adt' and t[1] == OPT
    v = c.a[0]
    def leaf(x):
        if isopt:
            if x.op == 'adt': return mk('adt', CF, 0, x.a[2]) if x.a[1] == 1 else mk('adt', CF, 1, none())
            return ite(variant_is(x, 0, 2), mk('adt', CF, 1, none()), mk('adt', CF, 0, field(x, 1, 0)))
        if x.op == 'adt': return mk('adt', CF, 0, x.a[2]) if x.a[1] == 0 else mk('adt', CF, 1, err(x.a[2]))
        if x.op == 'unk': return x
        return ite(variant_is(x, 0, 2), mk('adt', CF, 0, field(x, 0, 0)), mk('adt', CF, 1, err(field(x, 1, 0))))
    return lift(under(v, pc), leaf)
@model('std::ops::FromResidual::from_residual')
def from_residual(ip, c, st, pc):
    # error conversion is the identity for every use in this library (From<E> for E); anything else is opaque
    t = c.targs[0]
    v = under(c.a[0], pc)
    if t[0] == 'adt' and t[1] == RES and len(c.targs) > 1:
        rt = c.targs[1]
        if rt[0] == 'adt' and rt[1] == RES and rt[2][1] != t[2][1]:
            et = t[2][1]; src = rt[2][1]
            def s(g, st, pc):
                r, st, cc = ip.dispatch(c.fr, 'core::convert::From::from', (et, src), [g()], st, pc, c.span, None)
                return err(r), st, cc
            return cases(ip, v, st, pc, 2, [lambda g, st, pc: (BOT, st, FALSE), s])
    return v

@model('std::convert::Into::into')
def into(ip, c, st, pc):
    src, dst = c.targs[0], c.targs[1]
    if src == dst: return c.a[0]
    r = ip.dispatch(c.fr, 'core::convert::From::from', (dst, src), c.a, st, pc, c.span, None)
    return r
@model('std::convert::From::from')
def from_(ip, c, st, pc):
    if len(c.targs) > 1 and c.targs[0] == c.targs[1]: return c.a[0]
    im = ip.env.find_impl('core::convert::From', c.targs[:2])
    if im: return NotImplemented
    t = c.targs[0]
    if t[0] == 'adt' and t[1].endswith('string::String'): return deref_all(ip, c.a[0], st, pc)
    return NotImplemented

# ------------------------------------------------------------------ misc std
@model('std::clone::Clone::clone')
def clone(ip, c, st, pc):
    t = c.targs[0]
    v = ip.read(c.a[0], st, pc)
    if t[0] == 'adt' and t[1] in ip.prog.adts and ip.prog.adts[t[1]].get('local'):
        got = ip.env.find_impl('core::clone::Clone', (t,))
        if got:
            return NotImplemented   # inline the (usually derived) local impl
    return v
@model('std::clone::Clone::clone_from')
def clone_from(ip, c, st, pc):
    return UNIT, ip.write(c.a[0], ip.read(c.a[1], st, pc), st, pc), pc
@model('std::borrow::ToOwned::to_owned')
def to_owned(ip, c, st, pc): return deref_all(ip, c.a[0], st, pc)
@model('std::mem::drop')
def drop(ip, c, st, pc): return UNIT
@model('std::mem::forget')
def forget(ip, c, st, pc): return UNIT
@model('std::mem::replace')
def replace(ip, c, st, pc):
    v = ip.read(c.a[0], st, pc)
    return v, ip.write(c.a[0], c.a[1], st, pc), pc
@model('std::mem::swap')
def swap(ip, c, st, pc):
    a = ip.read(c.a[0], st, pc); b = ip.read(c.a[1], st, pc)
    st = ip.write(c.a[0], b, st, pc)
    return UNIT, ip.write(c.a[1], a, st, pc), pc
@model('std::mem::take')
def mem_take(ip, c, st, pc):
    v = ip.read(c.a[0], st, pc)
    return v, ip.write(c.a[0], unk('default'), st, pc), pc
@model('std::boxed::Box::new')
def box_new(ip, c, st, pc): return mk('box', c.a[0])
@model('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut')
def deref(ip, c, st, pc):
    t = c.targs[0]
    if t[0] == 'adt' and t[1].endswith('Box'):
        v = ip.read(c.a[0], st, pc)
        return mk('refv', v.a[0]) if v.op == 'box' else mk('refv', mk('deref', v))
    if t[0] == 'adt' and ip.prog.adts.get(t[1], {}).get('local'): return NotImplemented
    return c.a[0]      # Vec -> slice, String -> str: same contents
@model('std::convert::AsRef::as_ref', 'std::borrow::Borrow::borrow', 'std::vec::Vec::as_slice', 'std::vec::Vec::as_mut_slice',
       'std::array::as_slice', 'std::string::String::as_str', 'std::borrow::BorrowMut::borrow_mut', 'std::array::as_mut_slice')
def as_same(ip, c, st, pc):
    if c.targs and c.targs[0][0] == 'adt' and ip.prog.adts.get(c.targs[0][1], {}).get('local'): return NotImplemented
    return c.a[0]
@model('std::convert::AsMut::as_mut')
def as_mut(ip, c, st, pc):
    t = c.targs[0]
    if t[0] == 'adt' and ip.prog.adts.get(t[1], {}).get('local'): return NotImplemented
    r = c.a[0]
    # &mut CR where CR: AsMut<C>: identity on the underlying context
    while True:
        v = under(ip.read(r, st, pc), pc)
        if v.op in ('ref', 'rfld', 'rsel'): r = v
        else: break
    return r
@model('std::hint::must_use', 'std::convert::identity', 'std::hint::black_box')
def ident(ip, c, st, pc): return c.a[0]
@model('std::ops::Fn::call', 'std::ops::FnMut::call_mut', 'std::ops::FnOnce::call_once')
def fncall(ip, c, st, pc):
    args = c.a[1]
    lst = list(args.a) if args.op == 'tup' else [args]
    return callv(ip, c.a[0], lst, st, pc, c)
@model('std::default::Default::default')
def default(ip, c, st, pc):
    t = c.targs[0]
    if t[0] == 'prim' and t[1] not in ('bool', 'str', 'char'): return ZERO
    if t[0] == 'prim' and t[1] == 'bool': return FALSE
    if t[0] == 'adt' and t[1] == OPT: return none()
    if t[0] == 'adt' and t[1].endswith('String'): return string('')
    return NotImplemented

def panic_model(ip, c, st, pc):
    ip.obligation('panic', c.fr, c.span, pc, FALSE, c.fid)
    return BOT, st, FALSE
for n in ('std::rt::begin_panic', 'std::panicking::begin_panic', 'std::panicking::panic', 'std::panicking::panic_fmt', 'std::rt::panic_fmt', 'std::panicking::panic_explicit',
          'std::panicking::unreachable_display', 'std::panicking::panic_display', 'std::panicking::assert_failed', 'std::panicking::panic_str_2015',
          'std::option::unwrap_failed', 'std::result::unwrap_failed', 'std::option::expect_failed', 'std::panicking::assert_matches_failed', 'std::panicking::panic_nounwind'):
    M[n] = panic_model
def abort_model(ip, c, st, pc):
    ip.obligation('abort', c.fr, c.span, pc, FALSE, c.fid)
    return BOT, st, FALSE
M['std::process::abort'] = abort_model; M['std::process::exit'] = abort_model; M['std::intrinsics::abort'] = abort_model
def unsafe_unreach(ip, c, st, pc):
    ip.obligation('unsafe-unreachable', c.fr, c.span, pc, FALSE, c.fid)
    return BOT, st, FALSE
M['std::hint::unreachable_unchecked'] = unsafe_unreach
@model('std::panicking::unreachable_default_msg')
def ud(ip, c, st, pc): return string('')

# ------------------------------------------------------------------ comparison & arithmetic
def two(f):
    def g(ip, c, st, pc):
        x = deref_all(ip, c.a[0], st, pc); y = deref_all(ip, c.a[1], st, pc)
        return lift2(f, x, y)
    return g
def prim_like(ip, t):
    while t[0] == 'ref': t = t[1]
    if t[0] == 'adt' and ip.prog.adts.get(t[1], {}).get('local'): return False
    return True
def guarded(f):
    def g(ip, c, st, pc):
        if c.targs and not prim_like(ip, c.targs[0]): return NotImplemented
        if len(c.targs) > 1 and not prim_like(ip, c.targs[1]): return NotImplemented
        return f(ip, c, st, pc)
    return g
def cmp_eq(x, y):
    if x.op in ('arr', 'upd', 'sel') and y.op in ('arr', 'arrlit', 'upd') or x.op == 'arrlit' and y.op != 'arrlit': return mk('eq', *sorted((x, y)))
    return eq(x, y)
def eq_model(ip, c, st, pc):
    t = c.targs[0] if c.targs else None
    if t is not None and not prim_like(ip, t): return NotImplemented
    x = deref_all(ip, c.a[0], st, pc); y = deref_all(ip, c.a[1], st, pc)
    # unit-like / opaque values
    return lift2(cmp_eq, x, y)
M['std::cmp::PartialEq::eq'] = eq_model
def ne_model(ip, c, st, pc):
    t = c.targs[0] if c.targs else None
    if t is not None and not prim_like(ip, t):
        r, st, cc = ip.dispatch(c.fr, 'core::cmp::PartialEq::eq', c.targs, c.a, st, pc, c.span, None)
        return (bnot(r) if r.b else unk('ne')), st, cc
    r = eq_model(ip, c, st, pc)
    return bnot(r) if r.b else r
M['std::cmp::PartialEq::ne'] = ne_model
M['std::cmp::PartialOrd::lt'] = guarded(two(lt))
M['std::cmp::PartialOrd::gt'] = guarded(two(lambda x, y: lt(y, x)))
M['std::cmp::PartialOrd::le'] = guarded(two(le))
M['std::cmp::PartialOrd::ge'] = guarded(two(lambda x, y: le(y, x)))
M['std::cmp::Ord::max'] = M['std::cmp::max'] = guarded(two(lambda x, y: ite(lt(x, y), y, x)))
M['std::cmp::Ord::min'] = M['std::cmp::min'] = guarded(two(lambda x, y: ite(lt(y, x), y, x)))
M['std::ops::Add::add'] = guarded(two(add))
M['std::ops::Sub::sub'] = guarded(two(sub))
M['std::ops::Mul::mul'] = guarded(two(mul))
M['std::ops::Div::div'] = guarded(two(div))
M['std::ops::Rem::rem'] = guarded(two(lambda x, y: mk('rem', x, y)))
def neg_m(ip, c, st, pc):
    return lift(deref_all(ip, c.a[0], st, pc), neg)
M['std::ops::Neg::neg'] = guarded(neg_m)
def not_m(ip, c, st, pc):
    v = deref_all(ip, c.a[0], st, pc)
    return bnot(v) if v.b else unk('not')
M['std::ops::Not::not'] = guarded(not_m)
M['std::ops::BitAnd::bitand'] = guarded(two(lambda x, y: band(x, y) if x.b and y.b else unk('bitand')))
M['std::ops::BitOr::bitor'] = guarded(two(lambda x, y: bor(x, y) if x.b and y.b else unk('bitor')))
def opassign(f):
    def g(ip, c, st, pc):
        x = deref_all(ip, c.a[0], st, pc); y = deref_all(ip, c.a[1], st, pc)
        return UNIT, ip.write(c.a[0], lift2(f, x, y), st, pc), pc
    return guarded(g)
M['std::ops::AddAssign::add_assign'] = opassign(add)
M['std::ops::SubAssign::sub_assign'] = opassign(sub)
M['std::ops::MulAssign::mul_assign'] = opassign(mul)
M['std::ops::DivAssign::div_assign'] = opassign(div)

for n in ('num_traits::identities::Zero::zero', 'num_traits::identities::zero', 'num_traits::Zero::zero', 'num_traits::zero', 'num_traits::float::Float::zero'):
    M[n] = lambda ip, c, st, pc: NotImplemented if c.targs and c.targs[0][0] == 'adt' and ip.prog.adts.get(c.targs[0][1], {}).get('local') else ZERO
for n in ('num_traits::identities::One::one', 'num_traits::identities::one', 'num_traits::One::one', 'num_traits::one'):
    M[n] = lambda ip, c, st, pc: ONE
def is_c(k):
    return lambda ip, c, st, pc: lift(deref_all(ip, c.a[0], st, pc), lambda x: eq(x, num(k)))
M['num_traits::identities::Zero::is_zero'] = M['num_traits::Zero::is_zero'] = is_c(0)
M['num_traits::identities::One::is_one'] = M['num_traits::One::is_one'] = is_c(1)
M['num_traits::pow::Pow::pow'] = M['num_traits::Pow::pow'] = two(powt)
M['num_traits::pow::pow'] = M['num_traits::pow'] = two(powt)
def elem1(op):
    return lambda ip, c, st, pc: lift(deref_all(ip, c.a[0], st, pc), lambda x: x if x.op == 'unk' else ELEM(op, x))
def ELEM(op, x):
    return mk(op, x)
def recip(x): return div(ONE, x)
REAL1 = ['abs', 'acos', 'acosh', 'asin', 'asinh', 'atan', 'atanh', 'cos', 'cosh', 'exp', 'ln', 'sin', 'sinh', 'tan', 'tanh', 'sqrt', 'cbrt', 'exp2', 'log10', 'log2', 'signum', 'floor', 'ceil', 'round', 'trunc', 'fract', 'exp_m1', 'ln_1p']
SPECIAL1 = ['gamma', 'digamma', 'loggamma', 'erf', 'erfc', 'rgamma', 'factorial']
def real1(op):
    if op == 'sqrt': return lambda x: mk('pow', x, num('1/2'))
    if op == 'exp_m1': return lambda x: sub(mk('exp', x), ONE)
    if op == 'ln_1p': return lambda x: mk('ln', add(x, ONE))
    if op == 'exp2': return lambda x: mk('pow', num(2), x)
    return lambda x: mk(op, x)
def lift1(f):
    return lambda ip, c, st, pc: lift(deref_all(ip, c.a[0], st, pc), lambda x: x if x.op == 'unk' else f(x))
for op in REAL1:
    for p in ('num_traits::real::Real::', 'num_traits::float::Float::', 'num_traits::Float::', 'num_traits::float::FloatCore::', 'num_traits::sign::Signed::', 'num_traits::Signed::',
              'std::f32::', 'std::f64::', 'std::num::'):
        M[p + op] = lift1(real1(op))
        if p.startswith('std::'): M[p + 'f64::' + op] = M[p + op]
for op in SPECIAL1:
    M['special_fun::FloatSpecial::' + op] = lift1(lambda x, op=op: mk(op, x))
for p in ('num_traits::real::Real::', 'num_traits::float::Float::', 'num_traits::Float::', 'std::f64::', 'std::f32::', 'num_traits::float::FloatCore::'):
    M[p + 'recip'] = lift1(recip)
    M[p + 'powf'] = two(powt); M[p + 'powi'] = two(powt)
    M[p + 'mul_add'] = lambda ip, c, st, pc: add(mul(deref_all(ip, c.a[0], st, pc), deref_all(ip, c.a[1], st, pc)), deref_all(ip, c.a[2], st, pc))
    M[p + 'infinity'] = lambda ip, c, st, pc: INF
    M[p + 'neg_infinity'] = lambda ip, c, st, pc: neg(INF)
    M[p + 'epsilon'] = lambda ip, c, st, pc: mk('sym', 'epsilon')     # some positive threshold; its value depends on the field
    M[p + 'nan'] = lambda ip, c, st, pc: mk('nan')
    M[p + 'max'] = two(lambda x, y: ite(lt(x, y), y, x))
    M[p + 'min'] = two(lambda x, y: ite(lt(y, x), y, x))
    M[p + 'sin_cos'] = lift1(lambda x: mk('tup', mk('sin', x), mk('cos', x)))
    M[p + 'is_sign_negative'] = lift1(lambda x: lt(x, ZERO))
    M[p + 'is_sign_positive'] = lift1(lambda x: le(ZERO, x))
    M[p + 'is_nan'] = lift1(lambda x: FALSE)
M['num_traits::sign::Signed::is_negative'] = lift1(lambda x: lt(x, ZERO))
M['num_traits::sign::Signed::is_positive'] = lift1(lambda x: lt(ZERO, x))
M['num_traits::inv::Inv::inv'] = lift1(recip)
def from_usize(ip, c, st, pc):
    # Some(n) whenever the number type can represent n (all floating-point types can)
    return ite(mk('batom', 'representable', c.a[0]), some(c.a[0]), none())
for n in ('from_usize', 'from_u64', 'from_u32', 'from_i32', 'from_i64', 'from_f64', 'from_f32'):
    M['num_traits::cast::FromPrimitive::' + n] = from_usize
    M['num_traits::FromPrimitive::' + n] = from_usize
def checked(f):
    return lambda ip, c, st, pc: some(f(c.a[0], c.a[1]))
M['std::num::checked_add'] = lambda ip, c, st, pc: ite(mk('batom', 'nooverflow', add(c.a[0], c.a[1])), some(add(c.a[0], c.a[1])), none())
M['std::num::checked_mul'] = lambda ip, c, st, pc: ite(mk('batom', 'nooverflow', mul(c.a[0], c.a[1])), some(mul(c.a[0], c.a[1])), none())
M['std::num::saturating_add'] = two(add); M['std::num::saturating_mul'] = two(mul)
M['std::num::wrapping_add'] = two(add)
M['std::num::saturating_sub'] = two(lambda x, y: ite(lt(x, y), ZERO, sub(x, y)))
M['std::num::pow'] = two(powt)

# ------------------------------------------------------------------ slices / Vec / arrays
def slen(ip, c, st, pc): return alen(deref_all(ip, c.a[0], st, pc))
for n in ('std::vec::Vec::len', 'std::slice::len', 'std::iter::ExactSizeIterator::len'):
    M[n] = slen
def xlen(ip, c, st, pc):
    v = deref_all(ip, c.a[0], st, pc)
    s = to_seq(ip, v, st, pc)
    if s is None: return alen(v)
    r = ONE
    for d in s.a[2:]: r = mul(r, d)
    return sub(r, s.a[1])
M['std::iter::ExactSizeIterator::len'] = xlen
M['std::slice::is_empty'] = M['std::vec::Vec::is_empty'] = lambda ip, c, st, pc: eq(alen(deref_all(ip, c.a[0], st, pc)), ZERO)
@model('std::slice::last')
def slast(ip, c, st, pc):
    r = c.a[0]
    n = alen(deref_all(ip, r, st, pc))
    return ite(eq(n, ZERO), none(), some(ip.rindex(r, sub(n, ONE))))
@model('std::slice::first')
def sfirst(ip, c, st, pc):
    n = alen(deref_all(ip, c.a[0], st, pc))
    return ite(eq(n, ZERO), none(), some(ip.rindex(c.a[0], ZERO)))
@model('std::slice::get', 'std::slice::get_mut')
def sget(ip, c, st, pc):
    n = alen(deref_all(ip, c.a[0], st, pc))
    return ite(lt(c.a[1], n), some(ip.rindex(c.a[0], c.a[1])), none())
@model('std::slice::get_unchecked', 'std::slice::get_unchecked_mut')
def sgetu(ip, c, st, pc):
    n = alen(deref_all(ip, c.a[0], st, pc))
    ip.obligation('unsafe-index', c.fr, c.span, pc, lt(c.a[1], n), (n, c.a[1]))
    return ip.rindex(c.a[0], c.a[1])
@model('std::slice::split_last_mut', 'std::slice::split_last')
def split_last(ip, c, st, pc):
    r = c.a[0]
    n = alen(deref_all(ip, r, st, pc))
    return ite(eq(n, ZERO), none(), some(mk('tup', ip.rindex(r, sub(n, ONE)), mk('rsub', r, ZERO, sub(n, ONE)))))
@model('std::vec::from_elem')
def from_elem(ip, c, st, pc): return arr(c.a[1], mk('lam', c.a[0].h + 1, c.a[0]))
@model('std::ops::Index::index', 'std::ops::IndexMut::index_mut')
def index(ip, c, st, pc):
    t = c.targs[0]
    if t[0] == 'adt' and ip.prog.adts.get(t[1], {}).get('local'): return NotImplemented
    i = c.a[1]
    if c.targs[1] != ('prim', 'usize'): return unk('slice range index')
    n = alen(deref_all(ip, c.a[0], st, pc))
    ip.obligation('bounds', c.fr, c.span, pc, lt(i, n), (n, i))
    return ip.rindex(c.a[0], i)
@model('std::vec::Vec::new', 'std::vec::Vec::with_capacity')
def vec_new(ip, c, st, pc): return arr(ZERO, mk('lam', 1, mk('unk', 'empty')))
@model('std::vec::Vec::push')
def vec_push(ip, c, st, pc):
    v = deref_all(ip, c.a[0], st, pc)
    if v.op == 'arrlit': nv = arrlit(*(v.a + (c.a[1],)))
    elif v.op == 'arr' and v.a[0] is ZERO: nv = arrlit(c.a[1])
    else: nv = mk('push', v, c.a[1])
    return UNIT, ip.write(c.a[0], nv, st, pc), pc
@model('std::slice::to_vec', 'std::slice::into_vec', 'std::vec::Vec::into_boxed_slice', 'std::slice::concat')
def to_vec(ip, c, st, pc): return deref_all(ip, c.a[0], st, pc)
@model('std::slice::swap')
def slice_swap(ip, c, st, pc):
    r = c.a[0]; i, j = c.a[1], c.a[2]
    a = ip.read(ip.rindex(r, i), st, pc); b = ip.read(ip.rindex(r, j), st, pc)
    st = ip.write(ip.rindex(r, i), b, st, pc)
    return UNIT, ip.write(ip.rindex(r, j), a, st, pc), pc
@model('std::slice::fill')
def slice_fill(ip, c, st, pc):
    v = deref_all(ip, c.a[0], st, pc)
    return UNIT, ip.write(c.a[0], arr(alen(v), mk('lam', c.a[1].h + 1, c.a[1])), st, pc), pc

def gen_array(ip, f, n, st, pc, c, mkargs=None):
    """array whose k-th element is f(k)"""
    if n.op == 'num' and n.a[0] <= 8:
        xs = []
        for k in range(int(n.a[0])):
            r, st, cc = callv(ip, f, mkargs(num(k)) if mkargs else [num(k)], st, pc, c)
            if cc is FALSE: return BOT, st, FALSE
            xs.append(ip.freeze_temps(r, st, {}) if False else r)
        return arrlit(*xs), st, pc
    v, r, st2 = ip.map_body(f, (mkargs or (lambda v: [v])), st, pc, n)
    return arr(n, lam(v, r)), st, pc
@model('array_init::array_init', 'std::array::from_fn')
def array_init(ip, c, st, pc):
    n = None
    for t in c.targs:
        if t[0] in ('cparam', 'cval'): n = ip.ty_const(t)
    if n is None:
        for t in c.targs:
            if t[0] == 'array': n = ip.ty_const(t[2]); break
    f = next((a for a in c.a), None)
    if n is None: return unk('array_init length')
    return gen_array(ip, f, n, st, pc, c)
@model('std::array::map')
def array_map(ip, c, st, pc):
    v = c.a[0]
    return gen_array(ip, c.a[1], alen(v), st, pc, c, lambda k: [sel(v, k)])
@model('std::slice::<impl [T]>::iter', 'std::slice::iter', 'std::slice::iter_mut')
def slice_iter(ip, c, st, pc):
    r = c.a[0]
    v = deref_all(ip, r, st, pc)
    k = fresh()
    return mk('seq', lam(k, ip.rindex(strip_box(ip, r, st, pc), k)), ZERO, alen(v))
def strip_box(ip, r, st, pc):
    v = ip.read(r, st, pc)
    while v.op in ('ref', 'refv', 'rfld', 'rsel', 'rsub'):
        r = v; v = ip.read(r, st, pc)
    return r

# ------------------------------------------------------------------ iterators
def seq1(n, f):
    k = fresh()
    return mk('seq', lam(k, f(k)), ZERO, n)
def norm_dims(s):
    """drop dimensions of extent one"""
    return s
RANGE = 'core::ops::range::Range'
def to_seq(ip, v, st, pc):
    v = under(v, pc)
    if v.op == 'seq': return v
    if v.op == 'box': return to_seq(ip, v.a[0], st, pc)
    if v.op == 'adt' and v.a[0] == RANGE:
        s, e = v.a[2], v.a[3]
        if s is ZERO:
            k = fresh(); return mk('seq', lam(k, k), ZERO, e)
        k = fresh()
        return mk('seq', lam(k, add(s, k)), ZERO, sub(e, s))
    if v.op == 'adt' and v.a[0].endswith('range::RangeInclusive'):
        s, e = v.a[2], v.a[3]
        k = fresh(); return mk('seq', lam(k, add(s, k)), ZERO, add(sub(e, s), ONE))
    if v.op in ('arr', 'arrlit', 'upd') :
        k = fresh(); return mk('seq', lam(k, sel(v, k)), ZERO, alen(v))
    if v.op == 'adt' and v.a[0] == OPT:
        if v.a[1] == 0: return mk('seq', mk('lam', 1, BOT), ZERO, ZERO)
        return seq1(ONE, lambda k: v.a[2])
    if v.op in ('ref', 'refv', 'rfld', 'rsel', 'rsub'):
        x = under(ip.read(v, st, pc), pc)
        if x.op in ('arr', 'arrlit', 'upd', 'sel') or is_arr_sym(x):
            k = fresh(); return mk('seq', lam(k, ip.rindex(v, k)), ZERO, alen(x))
        return to_seq(ip, x, st, pc)
    if v.op == 'sym' and len(v.a) > 1 and v.a[1] == 'iter':
        k = fresh(); return mk('seq', lam(k, mk('nth', v, k)), ZERO, mk('icount', v))
    if v.op == 'sym' or v.op == 'sel' or v.op == 'fld':
        if is_arr_sym(v):
            k = fresh(); return mk('seq', lam(k, sel(v, k)), ZERO, alen(v))
    return None
def is_arr_sym(x):
    return x.op in ('sym', 'sel', 'fld') and x.op == 'sym' and len(x.a) > 1 and x.a[1] == 'arr'

@model('std::iter::IntoIterator::into_iter', 'std::iter::Iterator::by_ref')
def into_iter(ip, c, st, pc):
    t = c.targs[0] if c.targs else None
    v = c.a[0]
    if v.op == 'adt' and v.a[0] == RANGE: return v
    if v.op == 'adt' and not v.a[0].startswith(('core::', 'alloc::', 'std::')):
        return v
    if t is not None and t[0] == 'ref':
        inner = under(ip.read(v, st, pc), pc)
        if inner.op == 'seq' or inner.op == 'box' or (inner.op == 'adt' and inner.a[0] == RANGE): return v
    s = to_seq(ip, v, st, pc)
    if s is None: return unk('into_iter of ' + v.op)
    return s

@model('std::iter::Iterator::next')
def it_next(ip, c, st, pc):
    r = c.a[0]
    v = under(ip.read(r, st, pc), pc)
    while v.op in ('ref', 'rfld', 'rsel'):
        r = v; v = under(ip.read(r, st, pc), pc)
    bx = False
    if v.op == 'box': v = v.a[0]; bx = True
    if v.op == 'ite':
        return next_ite(ip, c, r, v, st, pc)
    if v.op == 'adt' and v.a[0] == RANGE:
        s, e = v.a[2], v.a[3]
        cnd = lt(s, e)
        if any(x.op == 'bot' for x in (s, e)): return BOT, st, FALSE
        nv = mk('adt', RANGE, 0, ite(cnd, add(s, ONE), s), e)
        return ite(cnd, some(s), none()), ip.write(r, nv, st, pc), pc
    if v.op == 'adt' and ip.prog.adts.get(v.a[0], {}).get('local'): return NotImplemented
    s = v if v.op == 'seq' else to_seq(ip, v, st, pc)
    if s is None:
        return unk('next of ' + v.op), ip.write(r, unk('iterator'), st, pc), pc
    l, pos = s.a[:2]; ds = s.a[2:]
    n = prodof(ds)
    if len(ds) != 1:
        e = l
        for i in range(len(ds)): e = app(e, dig(pos, i, *ds))
        nxt = mk('seq', l, ite(lt(pos, n), add(pos, ONE), pos), *ds)
        if bx: nxt = mk('box', nxt)
        return ite(lt(pos, n), some(e), none()), ip.write(r, nxt, st, pc), pc
    cnd = lt(pos, n)
    ns = mk('seq', l, ite(cnd, add(pos, ONE), pos), n)
    if bx: ns = mk('box', ns)
    return ite(cnd, some(app(l, pos)), none()), ip.write(r, ns, st, pc), pc
def next_ite(ip, c, r, v, st, pc):
    return unk('next of conditional iterator'), ip.write(r, unk('iterator'), st, pc), pc

def elem_fn(s):
    """curried element function of a sequence (applied to its index variables)"""
    def f(ks):
        x = s.a[0]
        for k in ks: x = app(x, k)
        return x
    return f
def lam_n(vs, body):
    for v in reversed(vs): body = lam(v, body)
    return body
def dims_of(s):
    ds = list(s.a[2:])
    return ds
def open_seq(ip, s):
    ds = dims_of(s)
    ks = []
    for d in ds:
        k = fresh(); ip.ranges[k] = (ZERO, d); ks.append(k)
    pos = s.a[1]
    if pos is not ZERO and len(ds) == 1:
        e = app(s.a[0], add(ks[0], pos)); ds = [sub(ds[0], pos)]
    else:
        e = elem_fn(s)(ks)
    return ks, ds, e

def adapt(f):
    def g(ip, c, st, pc):
        v = c.a[0]
        if v.op == 'adt' and ip.prog.adts.get(v.a[0], {}).get('local'):
            return unk('adaptor over a library iterator')
        if v.op == 'fseq':
            return f(ip, c, v, st, pc) if f.__name__ in FILTERED else unk('adaptor over a filtered iterator')
        s = to_seq(ip, v, st, pc)
        if s is None: return unk('iterator adaptor over ' + v.op)
        return f(ip, c, s, st, pc)
    return g
# adaptors and consumers that work element by element, hence also on a filtered sequence
FILTERED = {'it_filter', 'it_map', 'it_copied', 'it_fold', 'it_sum', 'it_product', 'it_count', 'it_for_each'}
def open_f(ip, s):
    """index variables, extents, element, selection condition"""
    if s.op == 'seq': return open_seq(ip, s) + (TRUE,)
    ks, ds, e = open_seq(ip, s.a[0])
    return ks, ds, e.a[0], e.a[1]
def close_f(ks, ds, e, g):
    if g is TRUE: return mk('seq', lam_n(ks, e), ZERO, *ds)
    return mk('fseq', mk('seq', lam_n(ks, mk('tup', e, g)), ZERO, *ds))
@model('std::iter::Iterator::filter')
@adapt
def it_filter(ip, c, s, st, pc):
    if s.op == 'seq' and any(d is ZERO for d in dims_of(s)): return s
    ks, ds, e, g = open_f(ip, s)
    r, st2 = apply_closure(ip, c.a[1], [mk('refv', e)], st, pc)
    if r is None or not r.b: return unk('filter predicate')
    return close_f(ks, ds, e, band(g, r))

def apply_closure(ip, f, args, st, pc):
    r, st2, cc = ip.call_value(f, args, st, pc)
    for k, x in st.items():
        if st2.get(k) is not x: return None, st2
    return ip.freeze_temps(r, st2, st), st2

@model('std::iter::Iterator::map')
@adapt
def it_map(ip, c, s, st, pc):
    ks, ds, e, g = open_f(ip, s)
    r, st2 = apply_closure(ip, c.a[1], [e], st, pc)
    if r is None: return unk('stateful map closure')
    return close_f(ks, ds, r, g)
@model('std::iter::Iterator::copied', 'std::iter::Iterator::cloned')
@adapt
def it_copied(ip, c, s, st, pc):
    ks, ds, e, g = open_f(ip, s)
    return close_f(ks, ds, deref_all(ip, e, st, pc), g)
@model('std::iter::Iterator::enumerate')
@adapt
def it_enumerate(ip, c, s, st, pc):
    ks, ds, e = open_seq(ip, s)
    if len(ks) != 1: return unk('enumerate of product')
    return mk('seq', lam_n(ks, mk('tup', ks[0], e)), ZERO, *ds)
@model('std::iter::Iterator::rev')
@adapt
def it_rev(ip, c, s, st, pc):
    ks, ds, e = open_seq(ip, s)
    if len(ks) != 1: return unk('rev of product')
    k = fresh(); ip.ranges[k] = (ZERO, ds[0])
    return mk('seq', lam(k, subst(e, {ks[0]: sub(sub(ds[0], ONE), k)})), ZERO, ds[0])
@model('std::iter::Iterator::take')
@adapt
def it_take(ip, c, s, st, pc):
    ks, ds, e = open_seq(ip, s)
    if len(ks) != 1: return unk('take of product')
    n = c.a[1]
    return mk('seq', lam_n(ks, e), ZERO, ite(lt(n, ds[0]), n, ds[0]))
@model('std::iter::Iterator::skip')
@adapt
def it_skip(ip, c, s, st, pc):
    ks, ds, e = open_seq(ip, s)
    if len(ks) != 1: return unk('skip of product')
    n = c.a[1]
    k = fresh()
    return mk('seq', lam(k, subst(e, {ks[0]: add(k, n)})), ZERO, ite(lt(n, ds[0]), sub(ds[0], n), ZERO))
@model('std::iter::Iterator::zip', 'std::iter::zip')
@adapt
def it_zip(ip, c, s, st, pc):
    o = to_seq(ip, c.a[1], st, pc)
    if o is None: return unk('zip with ' + c.a[1].op)
    ks, ds, e = open_seq(ip, s)
    k2, d2, e2 = open_seq(ip, o)
    if len(ks) != 1 or len(k2) != 1: return unk('zip of products')
    e2 = subst(e2, {k2[0]: ks[0]})
    n = ds[0] if ds[0] is d2[0] else ite(lt(d2[0], ds[0]), d2[0], ds[0])
    return mk('seq', lam_n(ks, mk('tup', e, e2)), ZERO, n)
@model('itertools::Itertools::cartesian_product')
@adapt
def it_cart(ip, c, s, st, pc):
    o = to_seq(ip, c.a[1], st, pc)
    if o is None: return unk('product with ' + c.a[1].op)
    ks, ds, e = open_seq(ip, s)
    k2, d2, e2 = open_seq(ip, o)
    ks, ds, e = ks + k2, ds + d2, mk('tup', e, e2)
    keep = [(k, d) for k, d in zip(ks, ds) if d is not ONE]
    e = subst(e, {k: ZERO for k, d in zip(ks, ds) if d is ONE}) if len(keep) < len(ks) else e
    return mk('seq', lam_n([k for k, _ in keep], e), ZERO, *[d for _, d in keep])
@model('std::iter::Iterator::flat_map')
@adapt
def it_flat_map(ip, c, s, st, pc):
    ks, ds, e = open_seq(ip, s)
    r, st2 = apply_closure(ip, c.a[1], [e], st, pc)
    if r is None: return unk('stateful flat_map closure')
    o = to_seq(ip, r, st, pc)
    if o is None: return unk('flat_map to ' + r.op)
    k2, d2, e2 = open_seq(ip, o)
    for d in d2:
        if any(has(d, k) for k in ks): return unk('ragged flat_map')
    return mk('seq', lam_n(ks + k2, e2), ZERO, *(ds + d2))
@model('itertools::cons_tuples_impl::cons_tuples', 'itertools::cons_tuples', 'itertools::structs::cons_tuples')
@adapt
def cons_tuples(ip, c, s, st, pc):
    ks, ds, e = open_seq(ip, s)
    if e.op == 'tup' and e.a[0].op == 'tup':
        e = mk('tup', *(e.a[0].a + e.a[1:]))
    return mk('seq', lam_n(ks, e), ZERO, *ds)
@model('std::iter::once', 'std::iter::sources::once::once')
def once(ip, c, st, pc): return seq1(ONE, lambda k: c.a[0])
@model('std::iter::repeat_n')
def repeat_n(ip, c, st, pc): return seq1(c.a[1], lambda k: c.a[0])
@model('std::iter::empty')
def empty(ip, c, st, pc): return mk('seq', mk('lam', 1, BOT), ZERO, ZERO)

def fold_seq(ip, s, init, step, st, pc):
    """step(acc, elem, st, pc) -> (term, st2) effect free"""
    ks, ds, e, g = open_f(ip, s)
    if all(d.op == 'num' and d.a[0] <= 8 for d in ds):
        import itertools
        acc = init
        for idx in itertools.product(*[range(int(d.a[0])) for d in ds]):
            m = {k: num(i) for k, i in zip(ks, idx)}
            nx, st2 = step(acc, subst(e, m), st, pc)
            if nx is None: return unk('stateful fold')
            acc = ite(subst(g, m), nx, acc)
        return acc
    acc = fresh()
    body, st2 = step(acc, e, st, pc)
    if body is None: return unk('stateful fold')
    body = ite(g, body, acc)
    # nest folds from the innermost dimension outwards
    cur = body
    for i in range(len(ds) - 1, -1, -1):
        if i == 0:
            return fold_of(ds[0], init, ks[0], acc, cur)
        a2 = fresh()
        cur = fold_of(ds[i], a2, ks[i], acc, cur)
        cur = subst(cur, {a2: acc}) if True else cur
    return init
@model('std::iter::Iterator::fold')
@adapt
def it_fold(ip, c, s, st, pc):
    def step(acc, e, st, pc):
        return apply_closure(ip, c.a[2], [acc, e], st, pc)
    return fold_seq(ip, s, c.a[1], step, st, pc)
@model('std::iter::Iterator::sum')
@adapt
def it_sum(ip, c, s, st, pc):
    return fold_seq(ip, s, ZERO, lambda acc, e, st, pc: (add(acc, deref_all(ip, e, st, pc)), st), st, pc)
@model('std::iter::Iterator::product')
@adapt
def it_product(ip, c, s, st, pc):
    return fold_seq(ip, s, ONE, lambda acc, e, st, pc: (mul(acc, deref_all(ip, e, st, pc)), st), st, pc)
@model('std::iter::Iterator::count')
@adapt
def it_count(ip, c, s, st, pc):
    if s.op == 'fseq': return fold_seq(ip, s, ZERO, lambda acc, e, st, pc: (add(acc, ONE), st), st, pc)
    ks, ds, e = open_seq(ip, s)
    r = ONE
    for d in ds: r = mul(r, d)
    return r
@model('std::iter::Iterator::all')
def it_all(ip, c, st, pc): return allany(ip, c, st, pc, True)
@model('std::iter::Iterator::any')
def it_any(ip, c, st, pc): return allany(ip, c, st, pc, False)
def allany(ip, c, st, pc, is_all):
    v = under(ip.read(c.a[0], st, pc), pc)
    s = v if v.op == 'fseq' else to_seq(ip, v, st, pc)
    if s is None: return unk('all over ' + v.op)
    if s.op == 'seq' and any(d is ZERO for d in dims_of(s)): return TRUE if is_all else FALSE
    ks, ds, e, g = open_f(ip, s)
    r, st2 = apply_closure(ip, c.a[1], [e], st, pc)
    if r is None or not r.b: return unk('all predicate')
    p = band(g, bnot(r) if is_all else r)
    for k, d in reversed(list(zip(ks, ds))):
        p = any_(d, lam(k, p))
    return bnot(p) if is_all else p
@model('std::iter::Iterator::position')
def it_position(ip, c, st, pc): return unk('position')
@model('std::iter::Iterator::for_each')
@adapt
def it_for_each(ip, c, s, st, pc):
    return for_each(ip, c, s, st, pc, c.a[1])

def for_each(ip, c, s, st, pc, f):
    """loop with a stateful body, through the same summarisation as MIR loops; a product is a nest of loops"""
    if s.op == 'fseq': return unk('for_each over a filtered iterator'), ip.havoc(list(f.a[2:]) if f.op == 'clo' else [f], st, 'for_each'), pc
    ks, ds, e = open_seq(ip, s)
    def nest(i, m, st, pc):
        if i == len(ks):
            r, st2, cc = callv(ip, f, [subst(e, m) if m else e], st, pc, c)
            return st2, cc
        return loop_n(ip, ks[i], ds[i], lambda st, k: nest(i + 1, m if k is None else {**m, ks[i]: k}, st, pc), st)
    st2, cc = nest(0, {}, st, pc)
    if cc is FALSE: return BOT, st2, FALSE
    return UNIT, st2, pc

def loop_n(ip, t, n, body, st):
    """state after body(state, index) for t = 0 .. n - 1"""
    from loops import closed, antiunify, locate
    if n.op == 'num' and n.a[0] <= 8:
        for k in range(int(n.a[0])):
            st, cc = body(st, num(k))
            if cc is FALSE: return st, FALSE
        return st, TRUE
    phis = {}
    G = dict(st)
    for _ in range(6):
        nob = len(ip.obls)
        B, cc = body(dict(G), None)
        N = {}
        n0 = len(phis)
        for k, g in G.items():
            b = B.get(k, g)
            N[k] = antiunify(g, b, (k,), phis, st[k])
        if len(phis) == n0 and all(N[k] is G[k] for k in G): break
        G = N; del ip.obls[nob:]
    sol = {}
    for p in phis.values():
        p.next = locate(B.get(p.key[0]), p.key[1:]) or unk('next')
        got = closed(ip, p, p.next, t, n, sol)
        if got is None: got = (unk('for_each state'), unk('for_each state'))
        p.at, p.final = got
    fin = {p.var: p.final for p in phis.values()}
    out = {k: subst(v, fin) for k, v in G.items()}
    m = {p.var: p.at for p in phis.values()}
    for o in ip.obls[nob:]:
        o.cond = subst(o.cond, m); o.pc = subst(o.pc, m)
    return out, TRUE

@model('std::iter::Iterator::collect', 'std::iter::FromIterator::from_iter')
def it_collect(ip, c, st, pc):
    s = to_seq(ip, c.a[0], st, pc)
    if s is None: return unk('collect of ' + c.a[0].op)
    ks, ds, e = open_seq(ip, s)
    if len(ks) != 1: return unk('collect of product')
    return arr(ds[0], lam(ks[0], e)) if not (ds[0].op == 'num' and ds[0].a[0] <= 8) else arrlit(*[subst(e, {ks[0]: num(i)}) for i in range(int(ds[0].a[0]))])
@model('std::iter::Iterator::size_hint')
def it_size_hint(ip, c, st, pc):
    s = to_seq(ip, ip.read(c.a[0], st, pc), st, pc)
    if s is None: return unk('size_hint')
    ks, ds, e = open_seq(ip, s)
    r = ONE
    for d in ds: r = mul(r, d)
    return mk('tup', r, some(r))
@model('std::ptr::mut_ptr::read', 'std::ptr::read', 'std::ptr::const_ptr::read', 'std::mem::transmute_copy')
def ptr_read(ip, c, st, pc):
    x = under(ip.read(c.a[0], st, pc), pc) if c.a[0].op in ('ref', 'refv', 'rfld', 'rsel') else None
    t = ip.env.norm(c.targs[-1]) if c.targs else None
    if x is None or t is None: return unk('raw pointer read')
    want = []
    while t[0] == 'array': want.append(ip.ty_const(t[2])); t = ip.env.norm(t[1])
    have = list(tm.dims_of_array(x) or [])
    if c.a[0].op == 'ref' and c.a[0].a[0][0] == c.fr.fid:
        # the pointee is a local of this very function: its declared type is authoritative
        lt = ip.env.norm(ip.lty(c.fr, c.a[0].a[0][1])); decl = []
        while lt[0] == 'array': decl.append(ip.ty_const(lt[2])); lt = ip.env.norm(lt[1])
        if lt == t and decl: have = decl
    if len(want) != len(have): return unk('raw pointer read at another type')
    # the pointee must be a fully initialised value of the read type
    for a, b in zip(have, want): ip.obligation('unsafe-read', c.fr, c.span, pc, eq(a, b), (a, b))
    # a bitwise copy is a second owner unless the element type is Copy
    ip.obligation('unsafe-read', c.fr, c.span, pc, TRUE if ip.env.holds('core::marker::Copy', (t,)) else mk('unk', 'bitwise copy of a type that is not Copy'))
    return x

# ------------------------------------------------------------------ other unsafe operations
UNINIT = mk('unk', 'uninitialised memory')
@model('std::mem::MaybeUninit::uninit', 'std::mem::MaybeUninit::uninit_array')
def mu_uninit(ip, c, st, pc): return mk('muninit')
@model('std::mem::MaybeUninit::new')
def mu_new(ip, c, st, pc): return mk('minit', c.a[0])
@model('std::mem::MaybeUninit::write')
def mu_write(ip, c, st, pc):
    r = c.a[0]
    if r.op == 'ref': st = dict(st); st = ip.store(r, mk('minit', c.a[1]), st, pc) if hasattr(ip, 'store') else st
    return r, st, pc
@model('std::mem::MaybeUninit::assume_init', 'std::mem::MaybeUninit::assume_init_read')
def mu_assume(ip, c, st, pc):
    v = under(c.a[0] if c.a[0].op not in ('ref', 'refv') else ip.read(c.a[0], st, pc), pc)
    if v.op == 'muninit': ip.obligation('unsafe-init', c.fr, c.span, pc, FALSE); return UNINIT
    if v.op == 'minit': ip.obligation('unsafe-init', c.fr, c.span, pc, TRUE); return v.a[0]
    ip.obligation('unsafe-init', c.fr, c.span, pc, mk('unk', 'initialisation of %s' % v.op)); return mk('unk', 'assume_init')
@model('std::mem::uninitialized')
def mem_uninit(ip, c, st, pc):
    ip.obligation('unsafe-init', c.fr, c.span, pc, FALSE); return UNINIT
@model('std::mem::zeroed')
def mem_zeroed(ip, c, st, pc):
    t = ip.env.norm(c.targs[0]) if c.targs else ('other', '')
    e = t
    while e[0] == 'array': e = ip.env.norm(e[1])
    num_ = e[0] == 'prim' and e[1] not in ('char',)
    ip.obligation('unsafe-init', c.fr, c.span, pc, TRUE if num_ else mk('unk', 'zeroed value of %s' % e[0]))
    return ZERO if num_ and t[0] == 'prim' else mk('unk', 'zeroed')
@model('std::slice::as_ptr', 'std::slice::as_mut_ptr', 'std::vec::Vec::as_ptr', 'std::vec::Vec::as_mut_ptr')
def as_ptr(ip, c, st, pc): return mk('sptr', c.a[0], ZERO)
@model('std::ptr::const_ptr::add', 'std::ptr::mut_ptr::add', 'std::ptr::const_ptr::offset', 'std::ptr::mut_ptr::offset')
def ptr_add(ip, c, st, pc):
    p = under(c.a[0], pc)
    if p.op != 'sptr': return unk('raw pointer arithmetic')
    n = alen(deref_all(ip, p.a[0], st, pc)); i = add(p.a[1], c.a[1])
    # an offset that is then dereferenced must stay inside the slice (one past the end is not dereferenceable)
    ip.obligation('unsafe-index', c.fr, c.span, pc, lt(i, n), (n, i))
    return ip.rindex(p.a[0], i)
@model('std::hint::assert_unchecked')
def assert_unchecked(ip, c, st, pc):
    ip.obligation('unsafe-unreachable', c.fr, c.span, pc, c.a[0]); return UNIT
@model('std::vec::Vec::set_len')
def set_len(ip, c, st, pc):
    n = alen(deref_all(ip, c.a[0], st, pc))
    ip.obligation('unsafe-init', c.fr, c.span, pc, bnot(lt(n, c.a[1]))); return unk('set_len')
