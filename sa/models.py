"""Models of the standard library and of the field crates, at the level of values."""
from terms import *
import terms as TM
from engine import *
import engine as EG

M = {}
def m(*names):
    def d(f):
        for n in names: M[n] = f
        return f
    return d

def R(c, v): return c.eng.refto(c.eng.tmp(c.st, v))
def ty0(c, i=0): return peel(c.argtys[i]) if c.argtys[i] else None
def target(c, i):
    """place behind reference argument i (all reference layers)"""
    e, st = c.eng, c.st
    v = c.args[i]
    pl = e.deref(st, v)
    while True:
        x = e.rd(st, pl)
        if isinstance(x, T) and x.op == 'ref' or isinstance(x, Ite) and any(isinstance(y, T) and y.op == 'ref' for y in leaves(x)): pl = e.deref(st, x)
        else: return pl
def selfv(c, i=0):
    v = c.args[i]
    e, st = c.eng, c.st
    v = e.cont(st, v)
    t = ty0(c, i)
    return e.coerce(v, t) if t is not None else v
def byval(c, i):
    """argument or, when it is a reference, what it points to"""
    return c.eng.cont(c.st, c.args[i])

# ------------------------------------------------------------------ panics / misc
@m('panicking::panic', 'panicking::begin_panic', 'panicking::panic_fmt', 'panicking::panic_str', 'panicking::assert_failed', 'panicking::panic_display',
   'panicking::unreachable_display', 'panicking::panic_explicit', 'panicking::panic_str_2015', 'panicking::panic_nounwind', 'intrinsics::unreachable', 'option::unwrap_failed', 'rt::panic_fmt', 'rt::begin_panic', 'panicking::panic_bounds_check', 'process::exit')
def _panic(c):
    c.eng.panic(c.st)
    return UNDEF
@m('hint::must_use', 'convert::identity', 'hint::black_box')
def _id(c): return c.args[0]
@m('Unsigned::to_usize', 'Unsigned::to_u64', 'Unsigned::to_u32', 'Unsigned::to_i64', 'Unsigned::to_i32')
def _tnum(c): return c.eng.usize(c.targs[0])
@m('mem::size_of')
def _sizeof(c):
    t = c.targs[0]
    if t[0] == 'p' and t[1] in WIDTH: return const(WIDTH[t[1]] // 8)
    return NotImplemented
@m('mem::swap')
def _swap(c):
    e, st = c.eng, c.st
    a, b = e.deref(st, c.args[0]), e.deref(st, c.args[1])
    x, y = e.rd(st, a), e.rd(st, b)
    e.wr(st, a, y); e.wr(st, b, x)
    return UNIT
@m('mem::replace')
def _replace(c):
    e, st = c.eng, c.st
    a = e.deref(st, c.args[0]); x = e.rd(st, a)
    e.wr(st, a, c.args[1])
    return x
@m('mem::take')
def _take(c):
    e, st = c.eng, c.st
    a = e.deref(st, c.args[0]); x = e.rd(st, a)
    if isinstance(x, Seq): e.wr(st, a, Seq([], x.ety)); return x
    if isinstance(x, En) and x.tag == OPT: e.wr(st, a, none()); return x
    return NotImplemented
@m('mem::drop', 'mem::forget')
def _drop(c): return UNIT
@m('intrinsics::discriminant_value', 'mem::discriminant')
def _disc(c):
    v = selfv(c)
    if isinstance(v, En): return v.disc
    return NotImplemented
@m('boxed::box_assume_init_into_vec_unsafe')
def _bx(c): return c.args[0]
@m('intrinsics::write_box_via_move')
def _bx2(c): return c.args[1]
@m('Box::new_uninit')
def _bx3(c): return UNIT
@m('Box::new', 'RefCell::new', 'Cell::new', 'Rc::new', 'Arc::new')
def _boxnew(c):
    if c.p.find('RefCell') >= 0 or '::Cell' in c.p: return Agg('RefCell', [c.args[0]])
    return c.args[0]
@m('RefCell::borrow', 'RefCell::borrow_mut', 'RefCell::get_mut')
def _rcb(c):
    pl = c.eng.deref(c.st, c.args[0])
    c.eng.shape(c.st, pl, ty0(c))
    return c.eng.refto(c.eng.ext(pl, ('f', 0, 0)))
@m('RefCell::replace', 'Cell::replace')
def _rcr(c):
    e, st = c.eng, c.st
    pl = e.deref(st, c.args[0])
    e.shape(st, pl, ty0(c))
    pl = e.ext(pl, ('f', 0, 0))
    x = e.rd(st, pl)
    e.wr(st, pl, c.args[1])
    return x
@m('RefCell::into_inner', 'Cell::into_inner')
def _rci(c): return c.eng.getp(c.args[0], (('f', 0, 0),))
@m('Cell::get')
def _cg(c): return c.eng.rd(c.st, c.eng.ext(c.eng.deref(c.st, c.args[0]), ('f', 0, 0)))
@m('Cell::set')
def _cs(c):
    c.eng.wr(c.st, c.eng.ext(c.eng.deref(c.st, c.args[0]), ('f', 0, 0)), c.args[1]); return UNIT

# ------------------------------------------------------------------ clone / deref / conversions
@m('Clone::clone', 'ToOwned::to_owned', 'Borrow::borrow')
def _clone(c):
    if c.d.endswith('borrow'): return c.args[0]
    t = c.argtys[0]
    v = c.eng.rd(c.st, c.eng.deref(c.st, c.args[0]))
    if t is not None and t[0] == 'ref': v = c.eng.coerce(v, t[1])
    return v
@m('Deref::deref', 'DerefMut::deref_mut', 'Vec::as_slice', 'Vec::as_mut_slice', 'slice::as_ref', 'array::as_slice', 'String::as_str', 'array::as_mut_slice')
def _deref(c):
    e, st = c.eng, c.st
    pl = e.deref(st, c.args[0])
    v = e.rd(st, pl)
    t = ty0(c)
    if t is not None and t[0] == 'adt' and short(t[1]) in ('Ref', 'RefMut', 'Rc', 'Arc', 'MutexGuard'):
        if isinstance(v, T) and v.op == 'ref': return v
        return e.refto(pl)
    return e.refto(pl)
@m('AsRef::as_ref', 'AsMut::as_mut')
def _asref(c):
    e, st = c.eng, c.st
    pl = target(c, 0)
    t = ty0(c)
    if t is not None: e.shape(st, pl, t)
    v = e.rd(st, pl)
    if isinstance(v, Seq): return e.refto(pl)
    if isinstance(v, Agg) and v.tag == ('digest',): return R(c, v.fs[0])
    if t is not None and t[0] == 'adt' and short(t[1]) in ('Vec', 'String', 'str', 'Box'): return e.refto(pl)
    if t == ('p', 'str') : return mkref(memloc(rawapp('as_bytes', scal(v)), ('slice', ('p', 'u8'))))
    # limbs / digest bytes: view of an opaque value
    if isinstance(v, Agg) and len(v.fs) == 1: v = scal(v)
    if not isinstance(v, (T, Ite)): return NotImplemented
    ety = ('p', 'u64')
    if c.ret is not None and c.ret[0] == 'ref' and c.ret[1][0] == 'slice': ety = c.ret[1][1]
    if c.d.endswith('as_mut'):
        # mutable limbs: keep as updatable sequence in place
        if isinstance(v, T) and v.op == 'app' and v.args[0] == 'limbs_of': return NotImplemented
        n = nlimbs(e, t) if t is not None else app('nlimbs', v)
        s = lift(lambda x: Seq([('o', rawapp('limbs', x), n)], ety), v) if isinstance(v, Ite) else Seq([('o', rawapp('limbs', v), n)], ety)
        e.wr(st, pl, s)
        return e.refto(pl)
    if isinstance(v, T) and v.op == 'app' and v.args[0] == 'pack':
        return R(c, v.args[1])
    n = nlimbs(e, t) if t is not None and ety == ('p', 'u64') else app('len', rawapp('limbs', v))
    return R(c, Seq([('o', rawapp('limbs', v), n)], ety))

@m('From::from', 'Into::into')
def _from(c):
    e = c.eng
    a, b = c.argtys[0], c.ret
    if a is None or b is None: return NotImplemented
    if a == b: return c.args[0]
    if a[0] == 'p' and b[0] == 'p': return e.cast(c.args[0], a, b)
    if b[0] == 'adt' and short(b[1]) == 'Vec' and peel(a)[0] in ('slice', 'array', 'adt'):
        v = e.cont(c.st, c.args[0])
        if isinstance(v, Seq): return v
    if b[0] == 'adt' and b[1] == OPT: return some(c.args[0])
    if b[0] == 'adt' and short(b[1]) == 'BigUint' and a[0] == 'p': return scal(c.args[0])
    if b[0] == 'adt' and short(b[1]) in ('BigInt',) and a[0] == 'p': return scal(c.args[0])
    if b[0] == 'adt' and short(b[1]) == 'Box': return c.args[0]
    # error conversions
    v = c.args[0]
    if v is ERR: return ERR
    # T: From<U>  through a local impl of the other direction
    if c.d.endswith('Into::into'):
        fty = ('fndef', 'core::convert::From::from', 'std::convert::From::from', (b, a))
        im, env = e.db.find_impl('core::convert::From', (b, a))
        if im is not None: return e.call_fn(c.st, fty, None, c.args, c.ret, c.argtys)
    return NotImplemented
@m('TryFrom::try_from', 'TryInto::try_into')
def _tryfrom(c): return NotImplemented

# ------------------------------------------------------------------ comparison
def is_prim(t): return t[0] == 'p' and t[1] in PRIMINT | {'char'}
def value_eq(e, st, a, b, ta, tb=None, d=0):
    """structural equality as a condition"""
    while ta[0] == 'ref':
        a = e.coerce(e.rd(st, e.deref(st, a)), ta[1]); ta = ta[1]
        if tb is not None and tb[0] == 'ref': b = e.coerce(e.rd(st, e.deref(st, b)), tb[1]); tb = tb[1]
        else: b = e.rd(st, e.deref(st, b))
    if ta == ('p', 'bool'): return biff(scal(a), scal(b))
    if is_prim(ta): return ieq(scal(a), scal(b))
    if e.isfield(ta) and isinstance(a, (T, Ite)) and isinstance(b, (T, Ite)): return feq(a, b)
    if ta[0] == 'tup' and isinstance(a, Agg):
        r = TRUE
        for x, y, t in zip(a.fs, b.fs, ta[1]): r = band(r, value_eq(e, st, x, y, t, None, d + 1))
        return r
    im, env = e.db.find_impl('core::cmp::PartialEq', (ta, ta))
    if im is not None:
        fty = ('fndef', 'core::cmp::PartialEq::eq', 'std::cmp::PartialEq::eq', (ta, ta))
        ra, rb = e.refto(e.tmp(st, a)), e.refto(e.tmp(st, b))
        return e.call_fn(st, fty, None, [ra, rb], ('p', 'bool'), [('ref', ta, False)] * 2)
    if isinstance(a, Seq) and isinstance(b, Seq):
        if a.v == b.v: return TRUE
        ety = ta[1] if ta[0] in ('slice', 'array') else (ta[2][0] if ta[0] == 'adt' and ta[2] else None)
        n = a.length
        r = ieq(n, b.length)
        if r is FALSE: return FALSE
        c = intconst(n)
        if ety is None: return bvar(rawapp('eq', *sorted([a, b], key=lambda x: x.v)))
        if c is not None and c <= 8:
            for i in range(c): r = band(r, value_eq(e, st, seq_get(a, const(i)), seq_get(b, const(i)), ety, None, d + 1))
            return r
        k = var('k')
        with facts(sub(sub(n, ONE), k) if isinstance(n, T) else ZERO):
            q = value_eq(e, st, seq_get(a, k), seq_get(b, k), ety, None, d + 1)
        return band(r, app('all', n, Lam(k, q)))
    if isinstance(a, En) and isinstance(b, En):
        r = FALSE
        for k in a.pay:
            c = band(isvar(a, k), isvar(b, k))
            if c is FALSE: continue
            if a.pay[k] and b.pay.get(k):
                tys = None
                if a.tag == OPT and ta[0] == 'adt': tys = [ta[2][0]]
                for i, (x, y) in enumerate(zip(a.pay[k], b.pay[k])):
                    t = tys[i] if tys else None
                    if t is None: q = bvar(rawapp('eq', x, y)) if x.v != y.v else TRUE
                    else: q = value_eq(e, st, x, y, t, None, d + 1)
                    c = band(c, q)
            r = bor(r, c)
        return strip_undef(r)
    if a.v == b.v: return TRUE
    x, y = sorted([opaque(e.deep(st, a)), opaque(e.deep(st, b))], key=lambda t: t.v)
    return lift(lambda p, q: TRUE if p.v == q.v else bvar(rawapp('eq', *sorted([p, q], key=lambda t: t.v))), x, y)

def inner_tys(c):
    return (c.argtys[0][1] if c.argtys[0] and c.argtys[0][0] == 'ref' else c.argtys[0]), (c.argtys[1][1] if c.argtys[1] and c.argtys[1][0] == 'ref' else c.argtys[1])
@m('PartialEq::eq', 'PartialEq::ne')
def _peq(c):
    e, st = c.eng, c.st
    ta, tb = inner_tys(c)
    a = e.coerce(e.rd(st, e.deref(st, c.args[0])), ta); b = e.coerce(e.rd(st, e.deref(st, c.args[1])), tb)
    r = value_eq(e, st, a, b, ta, tb)
    return r if c.d.endswith('eq') else bnot(r)
@m('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def _pord(c):
    e, st = c.eng, c.st
    t = peel(c.argtys[0])
    op = c.d.rsplit('::', 1)[1]
    a, b = byval(c, 0), byval(c, 1)
    if is_prim(t):
        return {'lt': ilt(a, b), 'le': ile(a, b), 'gt': ilt(b, a), 'ge': ile(b, a)}[op]
    im, env = e.db.find_impl('core::cmp::PartialOrd', (t, t))
    if im is not None:
        fty = ('fndef', 'core::cmp::PartialOrd::partial_cmp', 'std::cmp::PartialOrd::partial_cmp', (t, t))
        o = e.call_fn(st, fty, None, [e.refto(e.tmp(st, a)), e.refto(e.tmp(st, b))], None, [('ref', t, False)] * 2)
        if isinstance(o, En):
            ov = o.pay[1][0]
            lt, gt = isvar(ov, 0), isvar(ov, 2)
            return strip_undef({'lt': lt, 'gt': gt, 'le': bnot(gt), 'ge': bnot(lt)}[op])
    a, b = opaque(e.deep(st, a)), opaque(e.deep(st, b))
    if op == 'gt': a, b, op = b, a, 'lt'
    if op == 'ge': a, b, op = b, a, 'le'
    if op == 'le': return bnot(lift(lambda x, y: bvar(rawapp('olt', x, y)), b, a))
    return lift(lambda x, y: bvar(rawapp('olt', x, y)), a, b)
def ordering(lt, eq): return En(ORD, ite(lt, ZERO, ite(eq, ONE, const(2))), {0: (), 1: (), 2: ()})
@m('Ord::cmp', 'PartialOrd::partial_cmp')
def _cmp(c):
    t = peel(c.argtys[0])
    a, b = byval(c, 0), byval(c, 1)
    if not is_prim(t):
        if c.d.endswith('partial_cmp'): return NotImplemented
        return NotImplemented
    o = ordering(ilt(a, b), ieq(a, b))
    return some(o) if c.d.endswith('partial_cmp') else o
@m('Ord::min', 'cmp::min')
def _min(c): return lift(lambda x, y: app('min', x, y), c.args[0], c.args[1])
@m('Ord::max', 'cmp::max')
def _max(c): return lift(lambda x, y: app('max', x, y), c.args[0], c.args[1])
@m('Ordering::reverse')
def _orev(c):
    v = c.args[0]
    return En(ORD, lift(lambda d: UNDEF if d is UNDEF else const(2 - intconst(d)), v.disc), v.pay)
@m('Ordering::is_lt')
def _islt(c): return isvar(c.args[0], 0)
@m('Ordering::is_gt')
def _isgt(c): return isvar(c.args[0], 2)
@m('Ordering::is_eq')
def _iseq(c): return isvar(c.args[0], 1)
@m('Ordering::is_ne')
def _isne(c): return bnot(isvar(c.args[0], 1))
@m('Ordering::then', 'Ordering::then_with')
def _othen(c):
    a = c.args[0]
    b = c.args[1] if c.p.endswith('then') else c.eng.call_value(c.st, c.args[1], [])
    return vite(isvar(a, 1), b, a)

# ------------------------------------------------------------------ integers
@m('usize::leading_zeros', 'u64::leading_zeros', 'u32::leading_zeros')
def _lz(c): return lift(lambda x: app('lz', x), c.args[0])
def _sm_lz(x):
    n = intconst(x)
    if n is not None: return const(64 - n.bit_length())
SMART['lz'] = _sm_lz
@m('usize::is_power_of_two')
def _ip2(c): return bvar(app('is_pow2', c.args[0]))
@m('usize::next_power_of_two')
def _np2(c):
    # 1 << (64 - lz(x-1)) for x>=1
    return lift(lambda x: app('pow', const(2), sub(const(64), app('lz', sub(x, ONE)))), c.args[0])
@m('usize::pow', 'u64::pow', 'u32::pow')
def _ipow(c): return lift(lambda x, y: app('pow', x, y), c.args[0], c.args[1])
@m('i32::abs', 'i64::abs')
def _abs(c):
    t = c.argtys[0][1]
    x = c.args[0]
    mn = -(1 << (WIDTH[t] - 1))
    c.eng.panic(c.st, ieq(x, const(mn)))
    return ite(ilt(x, ZERO), neg(x), x)
@m('i32::unsigned_abs', 'i64::unsigned_abs')
def _uabs(c):
    x = c.args[0]
    return ite(ilt(x, ZERO), neg(x), x)
@m('i32::wrapping_abs', 'i64::wrapping_abs')
def _wabs(c):
    t = c.argtys[0][1]
    x = c.args[0]; mn = -(1 << (WIDTH[t] - 1))
    return ite(ieq(x, const(mn)), x, ite(ilt(x, ZERO), neg(x), x))
@m('usize::wrapping_add', 'usize::saturating_add', 'u64::wrapping_add')
def _wadd(c): return add(c.args[0], c.args[1])
@m('usize::div_ceil')
def _dceil(c): return app('idiv', add(c.args[0], sub(c.args[1], ONE)), c.args[1])
@m('usize::saturating_sub')
def _ssub(c):
    a, b = c.args
    return ite(ilt(a, b), ZERO, sub(a, b))
for _op, _f in (('Add::add', 'Add'), ('Sub::sub', 'Sub'), ('Mul::mul', 'Mul'), ('Div::div', 'Div'), ('Rem::rem', 'Rem'), ('Shl::shl', 'Shl'), ('Shr::shr', 'Shr'), ('BitAnd::bitand', 'BitAnd'), ('BitOr::bitor', 'BitOr'), ('BitXor::bitxor', 'BitXor')):
    def _mk(f):
        def g(c):
            t = peel(c.argtys[0])
            if not (is_prim(t) or t == ('p', 'bool')): return NotImplemented
            return c.eng.binop(f, byval(c, 0), byval(c, 1), t)
        return g
    M[_op] = _mk(_f)
for _op, _f in (('AddAssign::add_assign', 'Add'), ('SubAssign::sub_assign', 'Sub'), ('MulAssign::mul_assign', 'Mul'), ('DivAssign::div_assign', 'Div'), ('RemAssign::rem_assign', 'Rem'), ('ShlAssign::shl_assign', 'Shl'), ('ShrAssign::shr_assign', 'Shr'), ('BitAndAssign::bitand_assign', 'BitAnd'), ('BitOrAssign::bitor_assign', 'BitOr'), ('BitXorAssign::bitxor_assign', 'BitXor')):
    def _mk(f):
        def g(c):
            t = peel(c.argtys[0])
            if not (is_prim(t) or t == ('p', 'bool')): return NotImplemented
            pl = c.eng.deref(c.st, c.args[0])
            c.eng.wr(c.st, pl, c.eng.binop(f, c.eng.rd(c.st, pl), byval(c, 1), t))
            return UNIT
        return g
    M[_op] = _mk(_f)
@m('Not::not')
def _not(c):
    if peel(c.argtys[0]) == ('p', 'bool'): return bnot(byval(c, 0))
    return NotImplemented
@m('Neg::neg')
def _neg(c):
    if is_prim(peel(c.argtys[0])): return neg(byval(c, 0))
    return NotImplemented

# ------------------------------------------------------------------ Option / Result
def isen(v): return isinstance(v, En)
def opt(c, i=0):
    v = c.args[i]
    t = c.argtys[i]
    if isinstance(v, (T, Ite)) and t is not None:
        if t[0] == 'ref': v = c.eng.cont(c.st, v); t = peel(t)
        v = c.eng.coerce(v, t)
    if not isen(v): raise Unsup('not an Option/Result: %s' % show(v)[:60])
    return v
@m('Option::map')
def _omap(c):
    v = opt(c)
    s = isvar(v, 1)
    return c.eng.fork(c.st, s, lambda st: some(c.eng.call_value(st, c.args[1], [v.pay[1][0]], None)), lambda st: none())
@m('Option::and_then')
def _oat(c):
    v = opt(c)
    return c.eng.fork(c.st, isvar(v, 1), lambda st: c.eng.call_value(st, c.args[1], [v.pay[1][0]], c.ret), lambda st: none())
@m('Option::filter')
def _ofilter(c):
    v = opt(c)
    def ft(st):
        b = c.eng.call_value(st, c.args[1], [c.eng.refto(c.eng.tmp(st, v.pay[1][0]))], ('p', 'bool'))
        return c.eng.fork(st, b, lambda s: v, lambda s: none())
    return c.eng.fork(c.st, isvar(v, 1), ft, lambda st: none())
@m('Option::unwrap', 'Option::expect')
def _ounwrap(c):
    v = opt(c)
    s = isvar(v, 1)
    c.eng.panic(c.st, bnot(strip_undef(s)))
    return v.pay[1][0]
@m('Option::unwrap_or')
def _ouo(c):
    v = opt(c)
    return vite(strip_undef(isvar(v, 1)), v.pay[1][0], c.args[1])
@m('Option::unwrap_or_else')
def _ouoe(c):
    v = opt(c)
    return c.eng.fork(c.st, isvar(v, 1), lambda st: v.pay[1][0], lambda st: c.eng.call_value(st, c.args[1], [], c.ret))
@m('Option::unwrap_or_default')
def _ouod(c):
    v = opt(c)
    d = default_of(c, c.ret)
    return vite(strip_undef(isvar(v, 1)), v.pay[1][0], d)
@m('Option::map_or')
def _omo(c):
    v = opt(c)
    return c.eng.fork(c.st, isvar(v, 1), lambda st: c.eng.call_value(st, c.args[2], [v.pay[1][0]], c.ret), lambda st: c.args[1])
@m('Option::map_or_else')
def _omoe(c):
    v = opt(c)
    return c.eng.fork(c.st, isvar(v, 1), lambda st: c.eng.call_value(st, c.args[2], [v.pay[1][0]], c.ret), lambda st: c.eng.call_value(st, c.args[1], [], c.ret))
@m('Option::is_some')
def _ois(c): return strip_undef(isvar(optr(c), 1))
@m('Option::is_none')
def _oin(c): return bnot(strip_undef(isvar(optr(c), 1)))
@m('Option::is_some_and')
def _oisa(c):
    v = opt(c)
    return c.eng.fork(c.st, isvar(v, 1), lambda st: c.eng.call_value(st, c.args[1], [v.pay[1][0]], ('p', 'bool')), lambda st: FALSE)
def optr(c):
    e, st = c.eng, c.st
    pl = e.deref(st, c.args[0])
    e.shape(st, pl, ty0(c))
    v = e.rd(st, pl)
    if not isen(v): raise Unsup('not an Option behind reference')
    return v
@m('Option::as_ref', 'Option::as_mut', 'Result::as_ref', 'Result::as_mut')
def _oar(c):
    e, st = c.eng, c.st
    pl = e.deref(st, c.args[0])
    e.shape(st, pl, ty0(c))
    v = e.rd(st, pl)
    if v.tag == OPT: return En(OPT, v.disc, {0: (), 1: (e.refto(e.ext(pl, ('f', 1, 0))),)})
    return En(RES, v.disc, {0: (e.refto(e.ext(pl, ('f', 0, 0))),), 1: (ERR,)})
@m('Option::cloned', 'Option::copied')
def _ocl(c):
    v = opt(c)
    if isvar(v, 1) is FALSE: return none()
    t = c.argtys[0]
    x = c.eng.rd(c.st, c.eng.deref(c.st, v.pay[1][0]))
    if c.ret is not None: x = c.eng.coerce(x, c.ret[2][0])
    return En(OPT, v.disc, {0: (), 1: (x,)})
@m('Option::ok_or', 'Option::ok_or_else')
def _ook(c):
    v = opt(c)
    return En(RES, ite(strip_undef(isvar(v, 1)), ZERO, ONE), {0: (v.pay[1][0],), 1: (ERR,)})
@m('Option::or')
def _oor(c): 
    v = opt(c)
    return vite(strip_undef(isvar(v, 1)), v, c.args[1])
@m('Option::and')
def _oand(c):
    v = opt(c)
    return vite(strip_undef(isvar(v, 1)), c.args[1], none())
@m('Option::or_else')
def _oore(c):
    v = opt(c)
    return c.eng.fork(c.st, isvar(v, 1), lambda st: v, lambda st: c.eng.call_value(st, c.args[1], [], c.ret))
@m('Option::xor', 'Option::zip')
def _ozip(c):
    a, b = opt(c), opt(c, 1)
    if 'xor' in c.p: return NotImplemented
    return option(band(strip_undef(isvar(a, 1)), strip_undef(isvar(b, 1))), Agg('()', [a.pay[1][0], b.pay[1][0]]))
@m('Option::take')
def _otake(c):
    pl = c.eng.deref(c.st, c.args[0])
    v = optr(c)
    c.eng.wr(c.st, pl, none())
    return v
@m('Option::replace')
def _orep(c):
    pl = c.eng.deref(c.st, c.args[0])
    v = optr(c)
    c.eng.wr(c.st, pl, some(c.args[1]))
    return v
@m('Option::iter')
def _oiter(c): return NotImplemented
@m('bool::then')
def _bthen(c):
    return c.eng.fork(c.st, c.args[0], lambda st: some(c.eng.call_value(st, c.args[1], [], None)), lambda st: none())
@m('bool::then_some')
def _bthens(c): return option(c.args[0], c.args[1])
@m('Result::map')
def _rmap(c):
    v = opt(c)
    return c.eng.fork(c.st, isvar(v, 0), lambda st: ok(c.eng.call_value(st, c.args[1], [v.pay[0][0]], None)), lambda st: err(ERR))
@m('Result::and_then')
def _rat(c):
    v = opt(c)
    return c.eng.fork(c.st, isvar(v, 0), lambda st: c.eng.call_value(st, c.args[1], [v.pay[0][0]], c.ret), lambda st: err(ERR))
@m('Result::map_err', 'Result::or_else')
def _rmaperr(c):
    if 'or_else' in c.p: return NotImplemented
    v = opt(c)
    return En(RES, v.disc, {0: v.pay[0], 1: (ERR,)})
@m('Result::unwrap', 'Result::expect')
def _runwrap(c):
    v = opt(c)
    c.eng.panic(c.st, bnot(strip_undef(isvar(v, 0))))
    return v.pay[0][0]
@m('Result::unwrap_or')
def _ruo(c):
    v = opt(c)
    return vite(strip_undef(isvar(v, 0)), v.pay[0][0], c.args[1])
@m('Result::unwrap_or_else')
def _ruoe(c):
    v = opt(c)
    return c.eng.fork(c.st, isvar(v, 0), lambda st: v.pay[0][0], lambda st: c.eng.call_value(st, c.args[1], [v.pay[1][0]], c.ret))
@m('Result::unwrap_or_default')
def _ruod(c):
    v = opt(c)
    return vite(strip_undef(isvar(v, 0)), v.pay[0][0], default_of(c, c.ret))
@m('Result::map_or')
def _rmo(c):
    v = opt(c)
    return c.eng.fork(c.st, isvar(v, 0), lambda st: c.eng.call_value(st, c.args[2], [v.pay[0][0]], c.ret), lambda st: c.args[1])
@m('Result::map_or_else')
def _rmoe(c):
    v = opt(c)
    return c.eng.fork(c.st, isvar(v, 0), lambda st: c.eng.call_value(st, c.args[2], [v.pay[0][0]], c.ret), lambda st: c.eng.call_value(st, c.args[1], [v.pay[1][0]], c.ret))
@m('Result::is_ok_and')
def _risok(c):
    v = opt(c)
    return c.eng.fork(c.st, isvar(v, 0), lambda st: c.eng.call_value(st, c.args[1], [v.pay[0][0]], c.ret), lambda st: FALSE)
@m('Result::err')
def _rerr(c):
    v = opt(c)
    return En(OPT, ite(strip_undef(isvar(v, 0)), ZERO, ONE), {0: (), 1: (v.pay[1][0],)})
@m('Result::ok')
def _rok(c):
    v = opt(c)
    return En(OPT, ite(strip_undef(isvar(v, 0)), ONE, ZERO), {0: (), 1: (v.pay[0][0],)})
@m('Result::is_ok')
def _risok(c): return strip_undef(isvar(optr(c), 0))
@m('Result::is_err')
def _riserr(c): return bnot(strip_undef(isvar(optr(c), 0)))
@m('Try::branch')
def _branch(c):
    v = opt(c)
    if v.tag == OPT:
        return En(CFL, ite(strip_undef(isvar(v, 1)), ZERO, ONE), {0: (v.pay[1][0],), 1: (none(),)})
    return En(CFL, ite(strip_undef(isvar(v, 0)), ZERO, ONE), {0: (v.pay[0][0],), 1: (err(ERR),)})
@m('FromResidual::from_residual')
def _fromres(c):
    if c.ret is not None and c.ret[0] == 'adt' and c.ret[1] == OPT: return none()
    return err(ERR)
@m('Try::from_output')
def _fromout(c): return some(c.args[0]) if c.ret[1] == OPT else ok(c.args[0])

def default_of(c, t):
    if t[0] == 'p' and t[1] in WIDTH: return ZERO
    if t == ('p', 'bool'): return FALSE
    if t[0] == 'adt' and short(t[1]) == 'Vec': return Seq([], t[2][0])
    if t[0] == 'adt' and t[1] == OPT: return none()
    if t[0] == 'tup': return Agg('()', [default_of(c, x) for x in t[1]])
    if t[0] == 'array' and str(t[2]).isdigit(): return Seq([('m', const(int(t[2])), var('k'), default_of(c, t[1]))], t[1])
    if c.eng.isfield(t): return ZERO
    return rawapp('default', sp(c.eng.tkey(t)))
@m('Default::default')
def _default(c): return default_of(c, c.ret)

# ------------------------------------------------------------------ sequences
def seqref(c, i=0):
    """(place, Seq) behind reference argument"""
    e, st = c.eng, c.st
    pl = target(c, i)
    t = ty0(c, i)
    if t is not None: e.shape(st, pl, t)
    v = e.rd(st, pl)
    if isinstance(v, (T, Ite)) and t is not None: v = e.coerce(v, t)
    if isinstance(v, Ite) and all(isinstance(x, Seq) or x is UNDEF for x in leaves(v)):
        v = seq_of_ite(v)
    if not isinstance(v, Seq): raise Unsup('not a sequence: %s' % show(v)[:60])
    return pl, v
def seq_of_ite(v):
    """sequence whose length and elements depend on conditions"""
    ls = [x for x in leaves(v) if isinstance(x, Seq)]
    v2 = strip_undef(v)
    if isinstance(v2, Seq): return v2
    n = lift(lambda x: x.length, v2)
    k = var('k')
    return Seq([('m', n, k, lift(lambda x: seq_get(x, k), v2))], ls[0].ety)
def isrange(v): return isinstance(v, Agg) and isinstance(v.tag, str) and '::Range' in v.tag
@m('Vec::new', 'LinkedList::new', 'Vec::with_capacity', 'VecDeque::new')
def _vnew(c): return Seq([], c.ret[2][0] if c.ret and c.ret[0] == 'adt' else None)
@m('vec::from_elem')
def _felem(c):
    n = intconst(c.args[1]) if BIG[0] else None
    if n is not None and n <= 2000: return Seq([('e', c.args[0])] * n, c.ret[2][0] if c.ret else None)
    return Seq([('m', c.args[1], var('k'), c.args[0])], c.ret[2][0] if c.ret else None)
@m('Vec::len', 'slice::len', 'LinkedList::len', 'VecDeque::len')
def _len(c):
    t = ty0(c)
    v = c.eng.cont(c.st, c.args[0])
    if isinstance(v, T) and v.op == 'app' and v.args[0] == 'lc': return rawapp('caplen', v)
    if isinstance(v, Ite) and any(isinstance(x, T) and x.op == 'app' and x.args[0] == 'lc' for x in leaves(v)): return lift(lambda x: rawapp('caplen', x), v)
    pl, s = seqref(c)
    return s.length
@m('str::len', 'String::len')
def _slen(c): return rawapp('strlen', opaque(c.eng.deep(c.st, c.args[0])))
@m('Vec::is_empty', 'slice::is_empty', 'LinkedList::is_empty')
def _isempty(c):
    pl, s = seqref(c)
    return ile(s.length, ZERO)
@m('Vec::push', 'LinkedList::push_back', 'VecDeque::push_back')
def _push(c):
    pl, s = seqref(c)
    c.eng.wr(c.st, pl, Seq(s.segs + (('e', c.args[1]),), s.ety))
    return UNIT
@m('LinkedList::push_front')
def _pushf(c):
    pl, s = seqref(c)
    c.eng.wr(c.st, pl, Seq((('e', c.args[1]),) + s.segs, s.ety))
    return UNIT
@m('Vec::pop')
def _pop(c):
    pl, s = seqref(c)
    n = s.length
    if s.segs and s.segs[-1][0] == 'e':
        c.eng.wr(c.st, pl, Seq(s.segs[:-1], s.ety)); return some(s.segs[-1][1])
    return NotImplemented
@m('Vec::insert')
def _vinsert(c):
    pl, s = seqref(c)
    i = c.args[1]
    c.eng.wr(c.st, pl, seq_concat(seq_slice(s, ZERO, i), Seq([('e', c.args[2])], s.ety), seq_slice(s, i, s.length)))
    return UNIT
@m('Vec::remove')
def _vremove(c):
    pl, s = seqref(c)
    i = c.args[1]
    x = seq_get(s, i)
    c.eng.wr(c.st, pl, seq_concat(seq_slice(s, ZERO, i), seq_slice(s, add(i, ONE), s.length)))
    return x
@m('Vec::truncate')
def _trunc(c):
    pl, s = seqref(c)
    n = lift(lambda a, b: app('min', a, b), s.length, c.args[1])
    c.eng.wr(c.st, pl, seq_slice(s, ZERO, n)); return UNIT
@m('Vec::clear')
def _clear(c):
    pl, s = seqref(c); c.eng.wr(c.st, pl, Seq([], s.ety)); return UNIT
@m('Vec::reserve', 'Vec::shrink_to_fit', 'Vec::reserve_exact')
def _resv(c): return UNIT
@m('Vec::extend_from_slice')
def _efs(c):
    pl, s = seqref(c)
    _, o = seqref(c, 1)
    c.eng.wr(c.st, pl, seq_concat(s, o)); return UNIT
@m('Vec::append')
def _append(c):
    pl, s = seqref(c)
    pl2, o = seqref(c, 1)
    c.eng.wr(c.st, pl, seq_concat(s, o)); c.eng.wr(c.st, pl2, Seq([], o.ety)); return UNIT
@m('Vec::resize')
def _resize(c):
    pl, s = seqref(c)
    n = s.length; w = c.args[1]
    d = sub(w, n)
    def f(dd):
        if prove_ge0(dd): return seq_concat(s, Seq([('m', dd, var('k'), c.args[2])], s.ety))
        k = var('k')
        return Seq([('m', w, k, vite(ilt(k, n), seq_get(s, k), c.args[2]))], s.ety)
    c.eng.wr(c.st, pl, lift(f, d)); return UNIT
@m('slice::to_vec', 'Vec::into_boxed_slice', 'slice::into_vec', 'slice::to_owned')
def _tovec(c):
    if c.argtys[0] and c.argtys[0][0] != 'ref': return c.args[0]
    return seqref(c)[1]
@m('slice::concat')
def _concat(c):
    pl, s = seqref(c)
    if not s.all_e(): return NotImplemented
    parts = [c.eng.cont(c.st, x) for x in s.els()]
    if not all(isinstance(x, Seq) for x in parts): return NotImplemented
    return seq_concat(*parts)
@m('slice::clone_from_slice', 'slice::copy_from_slice')
def _cfs(c):
    pl, s = seqref(c)
    _, o = seqref(c, 1)
    c.eng.panic(c.st, bnot(ieq(s.length, o.length)))
    c.eng.wr(c.st, pl, Seq(o.segs, s.ety)); return UNIT
@m('slice::fill')
def _fill(c):
    pl, s = seqref(c)
    c.eng.wr(c.st, pl, Seq([('m', s.length, var('k'), c.args[1])], s.ety)); return UNIT
@m('slice::reverse')
def _reverse(c):
    pl, s = seqref(c)
    c.eng.wr(c.st, pl, seq_rev(s)); return UNIT
def seq_rev(s):
    if s.all_e(): return Seq(tuple(reversed(s.segs)), s.ety)
    k = var('k'); n = s.length
    with facts(sub(sub(n, ONE), k) if isinstance(n, T) else ZERO): b = seq_get(s, sub(sub(n, ONE), k))
    return Seq([('m', n, k, b)], s.ety)
@m('slice::swap')
def _sswap(c):
    pl, s = seqref(c)
    a, b = seq_get(s, c.args[1]), seq_get(s, c.args[2])
    c.eng.wr(c.st, pl, seq_set(seq_set(s, c.args[1], b), c.args[2], a)); return UNIT
@m('slice::first', 'LinkedList::front', 'slice::first_mut', 'LinkedList::front_mut')
def _first(c):
    pl, s = seqref(c)
    return option(ilt(ZERO, s.length), c.eng.refto(c.eng.ext(pl, ('i', ZERO))))
@m('slice::last', 'LinkedList::back', 'slice::last_mut')
def _last(c):
    pl, s = seqref(c)
    return option(ilt(ZERO, s.length), c.eng.refto(c.eng.ext(pl, ('i', sub(s.length, ONE)))))
@m('slice::get', 'slice::get_mut')
def _sget(c):
    pl, s = seqref(c)
    i = c.args[1]
    if isrange(i):
        a, b = range_bounds(i, s.length)
        return option(band(ile(a, b), ile(b, s.length)), c.eng.refto(c.eng.ext(pl, ('sl', a, b))))
    return option(ilt(i, s.length), c.eng.refto(c.eng.ext(pl, ('i', scal(i)))))
def range_bounds(r, n):
    t = r.tag.rsplit('::', 1)[1]
    if t == 'Range': return r.fs[0], r.fs[1]
    if t == 'RangeFrom': return r.fs[0], n
    if t == 'RangeTo': return ZERO, r.fs[0]
    if t == 'RangeFull': return ZERO, n
    if t == 'RangeInclusive': return r.fs[0], add(r.fs[1], ONE)
    if t == 'RangeToInclusive': return ZERO, add(r.fs[0], ONE)
    raise Unsup('range ' + t)
@m('Index::index', 'IndexMut::index_mut')
def _index(c):
    e, st = c.eng, c.st
    t = ty0(c)
    if t == ('p', 'str') or t is not None and t[0] == 'adt' and short(t[1]) == 'String': return NotImplemented
    i = c.args[1]
    if isinstance(i, T) and i.op == 'ref': return NotImplemented
    pl, s = seqref(c)
    if isrange(i) or (isinstance(i, Agg) and not i.fs):
        if isinstance(i, Agg) and not i.fs: return e.refto(pl)
        a, b = range_bounds(i, s.length)
        e.inside(st, s, scal(b), True); e.inside(st, s, scal(a), True)
        return e.refto(e.ext(pl, ('sl', scal(a), scal(b))))
    e.inside(st, s, scal(i))
    return e.refto(e.ext(pl, ('i', scal(i))))
@m('HashMap::new')
def _hmnew(c): return sp('hashmap.empty')
@m('RangeInclusive::new')
def _rinew(c): return Agg('core::ops::range::RangeInclusive', [c.args[0], c.args[1]])
@m('slice::split_at', 'slice::split_at_mut')
def _splitat(c):
    pl, s = seqref(c)
    i = c.args[1]
    c.eng.inside(c.st, s, scal(i), True)
    return Agg('()', [c.eng.refto(c.eng.ext(pl, ('sl', ZERO, i))), c.eng.refto(c.eng.ext(pl, ('sl', i, s.length)))])
@m('slice::contains')
def _contains(c): return NotImplemented

# ------------------------------------------------------------------ iterators
# It = Agg(('it',), [pos, end, desc]); desc = Agg(('d', kind), [...]) random access description
def mkit(n, desc, pos=ZERO): return Agg(('it',), [pos, n, desc])
def D(kind, *a): return Agg(('d', kind), a)
def isit(v): return isinstance(v, Agg) and v.tag == ('it',)
def isdyn(v): return isinstance(v, Agg) and isinstance(v.tag, tuple) and v.tag[0] == 'dyn'
def islocal_iter(e, t): 
    return t is not None and e.db.find_impl('core::iter::traits::iterator::Iterator', (t,))[0] is not None

def dat(e, st, d, i):
    """element i of description d (may run map closures)"""
    k = d.tag[1]
    if k == 'slice':
        return e.refto(e.ext(e.deref(st, d.fs[0]), ('i', i)))
    if k == 'vals': return seq_get(d.fs[0], i)
    if k == 'range': return add(d.fs[0], i)
    if k == 'map': return e.call_value(st, d.fs[1], [dat(e, st, d.fs[0], i)], None)
    if k == 'shift': return dat(e, st, d.fs[0], add(d.fs[1], i))
    if k == 'rev': return dat(e, st, d.fs[0], sub(sub(d.fs[1], ONE), i))
    if k == 'zip':
        a = dat(e, st, d.fs[0], i); b = dat(e, st, d.fs[1], i)
        return Agg('()', [a, b])
    if k == 'enum': return Agg('()', [i, dat(e, st, d.fs[0], i)])
    if k == 'step': return dat(e, st, d.fs[0], mul(d.fs[1], i))
    if k == 'cloned': return e.rd(st, e.deref(st, dat(e, st, d.fs[0], i)))
    if k == 'chain':
        n1 = d.fs[1]
        return e.fork(st, ilt(i, n1), lambda s: dat(e, s, d.fs[0], i), lambda s: dat(e, s, d.fs[2], sub(i, n1)))
    if k == 'chunks':
        pl = e.deref(st, d.fs[0]); w = d.fs[1]; tot = d.fs[2]
        a = mul(w, i); b = add(a, w)
        b = lift(lambda x: x if prove_ge0(sub(tot, x)) else app('min', x, tot), b) if d.tag[2] == 0 else b
        return e.refto(e.ext(pl, ('sl', a, b)))
    if k == 'windows':
        pl = e.deref(st, d.fs[0])
        return e.refto(e.ext(pl, ('sl', i, add(i, d.fs[1]))))
    if k == 'fn': return lift(lambda j, x: bitof(x, j), i, d.fs[0])
    if k == 'repeat': return d.fs[0]
    raise Unsup('iterator ' + k)

def it_norm(v):
    """description starting at 0 and its length"""
    pos, end, d = v.fs
    n = sub(end, pos)
    return n, (d if pos is ZERO else D('shift', d, pos))

def to_iter(c, v, t, depth=0):
    e, st = c.eng, c.st
    if isit(v) or isdyn(v): return v
    if isrange(v):
        k = v.tag.rsplit('::', 1)[1]
        if k == 'Range':
            n = e.nonneg(sub(v.fs[1], v.fs[0]))
            return mkit(n, D('range', v.fs[0]))
        if k == 'RangeFrom': return mkit(sp('inf'), D('range', v.fs[0]))
        if k == 'RangeInclusive':
            n = e.nonneg(add(sub(v.fs[1], v.fs[0]), ONE))
            return mkit(n, D('range', v.fs[0]))
    if t is not None and t[0] == 'ref':
        x = e.rd(st, e.deref(st, v))
        if isit(x) or isdyn(x): return Agg(('dyn', 'byref'), [v])
        pl = e.deref(st, v)
        tt = t[1]
        if tt[0] == 'adt' and tt[1].endswith('sizedvec::SizedVec'): return NotImplemented
        e.shape(st, pl, tt)
        x = e.rd(st, pl)
        if isinstance(x, Seq): return mkit(x.length, D('slice', e.refto(pl)))
        if tt[0] == 'ref': return to_iter(c, x, tt, depth + 1)
        if islocal_iter(e, tt): return Agg(('dyn', 'userref', tt), [v])
    if isinstance(v, Seq): return mkit(v.length, D('vals', v))
    if t is not None and islocal_iter(e, t): return Agg(('dyn', 'user', t), [v])
    if isinstance(v, En) and v.tag == OPT: raise Unsup('iterating an Option')
    if isinstance(v, (T, Ite)) and t is not None:
        x = e.coerce(v, t)
        if isinstance(x, Seq): return mkit(x.length, D('vals', x))
    return NotImplemented

def next_place(c_eng, st, pl):
    """advance the iterator stored at pl; returns Option value"""
    e = c_eng
    v = e.rd(st, pl)
    if isit(v):
        pos, end, d = v.fs
        cnd = ilt(pos, end) if end.v != sp('inf').v else TRUE
        def ft(s):
            x = dat(e, s, d, pos)
            e.wr(s, e.ext(pl, ('f', 0, 0)), add(pos, ONE))
            return some(x)
        return e.fork(st, cnd, ft, lambda s: none())
    if isdyn(v):
        k = v.tag[1]
        if k == 'byref': return next_place(e, st, e.deref(st, v.fs[0]))
        if k == 'user' or k == 'userref':
            p2 = e.ext(pl, ('f', 0, 0)) if k == 'user' else e.deref(st, v.fs[0])
            t = v.tag[2]
            fty = ('fndef', 'core::iter::traits::iterator::Iterator::next', 'std::iter::Iterator::next', (t,))
            return e.call_fn(st, fty, None, [e.refto(p2)], None, [('ref', t, True)])
        if k == 'map':
            o = next_place(e, st, e.ext(pl, ('f', 0, 0)))
            return e.fork(st, isvar(o, 1), lambda s: some(e.call_value(s, e.refto(e.ext(pl, ('f', 0, 1))), [o.pay[1][0]], None)), lambda s: none())
        if k == 'zip':
            o = next_place(e, st, e.ext(pl, ('f', 0, 0)))
            def ft(s):
                o2 = next_place(e, s, e.ext(pl, ('f', 0, 1)))
                return e.fork(s, isvar(o2, 1), lambda s2: some(Agg('()', [o.pay[1][0], o2.pay[1][0]])), lambda s2: none())
            return e.fork(st, isvar(o, 1), ft, lambda s: none())
        if k == 'enum':
            o = next_place(e, st, e.ext(pl, ('f', 0, 0)))
            def ft(s):
                i = e.rd(s, e.ext(pl, ('f', 0, 1)))
                e.wr(s, e.ext(pl, ('f', 0, 1)), add(i, ONE))
                return some(Agg('()', [i, o.pay[1][0]]))
            return e.fork(st, isvar(o, 1), ft, lambda s: none())
        if k == 'take':
            n = e.rd(st, e.ext(pl, ('f', 0, 1)))
            def ft(s):
                e.wr(s, e.ext(pl, ('f', 0, 1)), sub(n, ONE))
                return next_place(e, s, e.ext(pl, ('f', 0, 0)))
            return e.fork(st, ilt(ZERO, n), ft, lambda s: none())
        if k == 'cloned':
            o = next_place(e, st, e.ext(pl, ('f', 0, 0)))
            return e.fork(st, isvar(o, 1), lambda s: some(e.rd(s, e.deref(s, o.pay[1][0]))), lambda s: none())
        if k == 'scan':
            o = next_place(e, st, e.ext(pl, ('f', 0, 0)))
            return e.fork(st, isvar(o, 1), lambda s: e.call_value(s, e.refto(e.ext(pl, ('f', 0, 2))), [e.refto(e.ext(pl, ('f', 0, 1))), o.pay[1][0]], None), lambda s: none())
        if k == 'fromfn': return e.call_value(st, e.refto(e.ext(pl, ('f', 0, 0))), [], None)
        if k == 'succ':
            o = e.rd(st, e.ext(pl, ('f', 0, 0)))
            def ft(s):
                x = o.pay[1][0]
                e.wr(s, e.ext(pl, ('f', 0, 0)), e.call_value(s, e.refto(e.ext(pl, ('f', 0, 1))), [e.refto(e.tmp(s, x))], None))
                return some(x)
            return e.fork(st, isvar(o, 1), ft, lambda s: none())
        raise Unsup('iterator ' + k)
    raise Unsup('next on %s' % show(v)[:60])

@m('IntoIterator::into_iter', 'slice::iter', 'slice::iter_mut', 'LinkedList::iter', 'LinkedList::iter_mut', 'Vec::into_iter', 'Vec::iter', 'Iterator::by_ref')
def _intoiter(c):
    if c.d.endswith('by_ref'): return Agg(('dyn', 'byref'), [c.args[0]])
    t = c.argtys[0]
    r = to_iter(c, c.args[0], t)
    if r is NotImplemented and t is not None:
        # e.g. &SizedVec without its own IntoIterator
        return NotImplemented
    return r
@m('Vec::drain')
def _drain(c):
    pl, s = seqref(c)
    a, b = range_bounds(c.args[1], s.length) if isrange(c.args[1]) else (ZERO, s.length)
    x = seq_slice(s, a, b)
    c.eng.wr(c.st, pl, seq_concat(seq_slice(s, ZERO, a), seq_slice(s, b, s.length)))
    return mkit(x.length, D('vals', x))
@m('slice::chunks', 'slice::chunks_exact', 'slice::chunks_mut', 'slice::chunks_exact_mut')
def _chunks(c):
    pl, s = seqref(c)
    w = c.args[1]
    ex = 'exact' in c.p
    n = app('idiv', s.length, w) if ex else app('idiv', add(s.length, sub(w, ONE)), w)
    return mkit(n, Agg(('d', 'chunks', 1 if ex else 0), [c.eng.refto(pl), w, s.length]))
@m('slice::windows')
def _windows(c):
    pl, s = seqref(c)
    w = c.args[1]
    return mkit(c.eng.nonneg(add(sub(s.length, w), ONE)), D('windows', c.eng.refto(pl), w))
@m('iter::repeat', 'iter::repeat_n')
def _repeat(c): return mkit(sp('inf') if len(c.args) == 1 else c.args[1], D('repeat', c.args[0]))
@m('iter::once')
def _once(c): return mkit(ONE, D('vals', Seq([('e', c.args[0])], c.argtys[0])))
@m('iter::empty')
def _iempty(c): return mkit(ZERO, D('vals', Seq([], None)))
@m('BitIterator::new')
def _bitit(c):
    x = opaque(c.eng.deep(c.st, c.args[0]))
    n = reprbits(c.eng, c.targs[0])
    return mkit(n, D('rev', Agg(('d', 'fn', 'bit'), [x]), n))
def nlimbs(e, t):
    n = app('nlimbs', sp('repr:' + e.tkey(t)))
    return e.inst.get(n.v, n)
def reprbits(e, t):
    n = mul(const(64), nlimbs(e, t))
    return e.inst.get(n.v, n)
def _sm_bit(x, i):
    j = intconst(i)
    if isinstance(x, T) and x.op == 'app' and x.args[0] == 'repr' and j is not None:
        c = intconst(x.args[1])
        if c is not None and 0 <= c < 1 << 200: return TRUE if (c >> j) & 1 else FALSE
SMART['bit'] = _sm_bit
def bitof(x, i):
    r = app('bit', x, i)
    return r if r in (TRUE, FALSE) else bvar(r)
def itself(c, i=0):
    v = c.args[i]
    r = to_iter(c, v, c.argtys[i])
    if r is NotImplemented: raise Unsup('unmodelled iterator %s' % show(v)[:60])
    return r
@m('Iterator::next')
def _next(c):
    e, st = c.eng, c.st
    pl = e.deref(st, c.args[0])
    v = e.rd(st, pl)
    if not (isit(v) or isdyn(v)):
        t = ty0(c)
        if isrange(v):
            lo, hi = v.fs[0], v.fs[1]
            def ft(s):
                e.wr(s, e.ext(pl, ('f', 0, 0)), add(lo, ONE)); return some(lo)
            return e.fork(st, ilt(lo, hi), ft, lambda s: none())
        x = to_iter(c, v, t)
        if x is NotImplemented: return NotImplemented
        e.wr(st, pl, x)
    return next_place(e, st, pl)
@m('DoubleEndedIterator::next_back')
def _nextback(c):
    e, st = c.eng, c.st
    pl = e.deref(st, c.args[0])
    v = e.rd(st, pl)
    if not isit(v): return NotImplemented
    pos, end, d = v.fs
    def ft(s):
        e.wr(s, e.ext(pl, ('f', 0, 1)), sub(end, ONE))
        return some(dat(e, s, d, sub(end, ONE)))
    return e.fork(st, ilt(pos, end), ft, lambda s: none())
@m('Iterator::map')
def _imap(c):
    v = itself(c)
    if isdyn(v): return Agg(('dyn', 'map'), [v, c.args[1]])
    n, d = it_norm(v)
    return mkit(n, D('map', d, c.args[1]))
@m('Iterator::zip')
def _izip(c):
    a = itself(c); b = itself(c, 1)
    if isdyn(a) or isdyn(b): return Agg(('dyn', 'zip'), [a, b])
    n1, d1 = it_norm(a); n2, d2 = it_norm(b)
    if n1.v == sub(sp('inf'), a.fs[0]).v and n1.v != n2.v: n = n2
    elif n2.v == sub(sp('inf'), b.fs[0]).v: n = n1
    else: n = lift(lambda x, y: app('min', x, y), n1, n2)
    return mkit(n, D('zip', d1, d2))
@m('iter::zip')
def _izip2(c): return _izip(c)
@m('Iterator::enumerate')
def _ienum(c):
    v = itself(c)
    if isdyn(v): return Agg(('dyn', 'enum'), [v, ZERO])
    n, d = it_norm(v)
    return mkit(n, D('enum', d))
@m('Iterator::rev')
def _irev(c):
    v = itself(c)
    if isdyn(v): raise Unsup('rev of a stateful iterator')
    n, d = it_norm(v)
    return mkit(n, D('rev', d, n))
@m('Iterator::skip')
def _iskip(c):
    v = itself(c)
    if isdyn(v): raise Unsup('skip of a stateful iterator')
    pos, end, d = v.fs
    p2 = add(pos, c.args[1])
    n = c.eng.nonneg(sub(end, p2))
    return mkit(n, D('shift', d, p2))
@m('Iterator::take')
def _itake(c):
    v = itself(c)
    if isdyn(v): return Agg(('dyn', 'take'), [v, c.args[1]])
    n, d = it_norm(v)
    n = c.args[1] if n.v == sp('inf').v else lift(lambda x, y: app('min', x, y), n, c.args[1])
    return mkit(n, d)
@m('Iterator::step_by')
def _istep(c):
    v = itself(c)
    if isdyn(v): raise Unsup('step_by')
    n, d = it_norm(v)
    w = c.args[1]
    return mkit(app('idiv', add(n, sub(w, ONE)), w), D('step', d, w))
@m('Iterator::chain')
def _ichain(c):
    a = itself(c); b = itself(c, 1)
    if isdyn(a) or isdyn(b): raise Unsup('chain of a stateful iterator')
    n1, d1 = it_norm(a); n2, d2 = it_norm(b)
    return mkit(add(n1, n2), D('chain', d1, n1, d2))
@m('Iterator::cloned', 'Iterator::copied')
def _icloned(c):
    v = itself(c)
    if isdyn(v): return Agg(('dyn', 'cloned'), [v])
    n, d = it_norm(v)
    return mkit(n, D('cloned', d))
@m('Iterator::into_iter', 'Iterator::fuse')
def _ifuse(c): return itself(c)
@m('Iterator::peekable')
def _ipeek(c): raise Unsup('peekable')

def each(c, it, f):
    """for x in it { f(st, x) }"""
    e, st = c.eng, c.st
    def selective(v): return isdyn(v) and (v.tag[1] in ('filter', 'filter_map') or v.tag[1] in ('map', 'cloned') and selective(v.fs[0]))
    if selective(it):
        k = it.tag[1]
        g = e.refto(e.tmp(st, it.fs[1])) if len(it.fs) > 1 else None
        if k == 'filter':
            return each(c, it.fs[0], lambda s, x: e.fork(s, strip_undef(e.call_value(s, g, [e.refto(e.tmp(s, x))], ('p', 'bool'))), lambda s2: (f(s2, x), UNIT)[1], lambda s2: UNIT))
        if k == 'filter_map':
            def one(s, x):
                o = e.call_value(s, g, [x], None)
                return e.fork(s, strip_undef(isvar(o, 1)), lambda s2: (f(s2, o.pay[1][0]), UNIT)[1], lambda s2: UNIT)
            return each(c, it.fs[0], one)
        if k == 'map': return each(c, it.fs[0], lambda s, x: f(s, e.call_value(s, g, [x], None)))
        return each(c, it.fs[0], lambda s, x: f(s, e.rd(s, e.deref(s, x))))
    loc = newloc(); st.store[loc] = it
    pl = [(TRUE, loc, ())]
    tag = 'each%d' % loc
    def body(s):
        o = next_place(e, s, pl)
        def done(s2):
            s2.exits.append(Exit(s2.pc, tag, UNIT, s2.store)); s2.store = dict(s2.store); s2.pc = FALSE
            return UNDEF
        e.fork(s, isvar(o, 1), lambda s2: f(s2, o.pay[1][0]), done)
    e.loop(st, body, {tag})
@m('Iterator::for_each')
def _iforeach(c):
    v = itself(c)
    fl = c.eng.refto(c.eng.tmp(c.st, c.args[1]))
    each(c, v, lambda s, x: c.eng.call_value(s, fl, [x], None))
    return UNIT
@m('Iterator::fold')
def _ifold(c):
    v = itself(c)
    e = c.eng
    acc = e.tmp(c.st, c.args[1])
    each(c, v, lambda s, x: e.wr(s, acc, e.call_value(s, c.args[2], [e.rd(s, acc), x], None)))
    return e.rd(c.st, acc)
@m('Iterator::sum', 'Iterator::product')
def _isum(c):
    v = itself(c)
    e = c.eng
    t = c.ret
    mulp = c.d.endswith('product')
    if t is None or not (is_prim(t)): return NotImplemented
    acc = e.tmp(c.st, ONE if mulp else ZERO)
    def f(s, x):
        x = e.cont(s, x)
        e.wr(s, acc, mul(e.rd(s, acc), x) if mulp else add(e.rd(s, acc), x))
    each(c, v, f)
    return e.rd(c.st, acc)
@m('Iterator::count')
def _icount(c):
    v = itself(c)
    if isit(v): return it_norm(v)[0]
    raise Unsup('count')
@m('ExactSizeIterator::len')
def _ilen(c):
    v = c.eng.cont(c.st, c.args[0])
    if isit(v): return it_norm(v)[0]
    raise Unsup('len')
@m('Iterator::last')
def _ilast(c):
    v = itself(c)
    if isdyn(v): raise Unsup('last')
    n, d = it_norm(v)
    return option(ilt(ZERO, n), dat(c.eng, c.st, d, sub(n, ONE)))
@m('Iterator::nth')
def _inth(c):
    e, st = c.eng, c.st
    pl = e.deref(st, c.args[0])
    v = e.rd(st, pl)
    if not isit(v): raise Unsup('nth')
    pos, end, d = v.fs
    i = add(pos, c.args[1])
    def ft(s):
        e.wr(s, e.ext(pl, ('f', 0, 0)), add(i, ONE))
        return some(dat(e, s, d, i))
    def fe(s):
        e.wr(s, e.ext(pl, ('f', 0, 0)), end); return none()
    return e.fork(st, ilt(i, end), ft, fe)
@m('Iterator::all', 'Iterator::any')
def _iall(c):
    e, st = c.eng, c.st
    v = c.args[0]
    if c.argtys[0] and c.argtys[0][0] == 'ref':
        v = e.rd(st, e.deref(st, v))
        if not isit(v):
            x = to_iter(c, v, ty0(c))
            if x is NotImplemented: return NotImplemented
            v = x
    al = c.d.endswith('all')
    if isit(v):
        n, d = it_norm(v)
        k = var('k')
        s = st.branch(TRUE)
        with facts(sub(sub(n, ONE), k) if isinstance(n, T) else ZERO):
            b = e.call_value(s, c.args[1], [dat(e, s, d, k)], ('p', 'bool'))
        if s.eff or s.pan is not FALSE: raise Unsup('effectful all/any')
        if al: return app('all', n, Lam(k, b))
        return bnot(app('all', n, Lam(k, bnot(b))))
    raise Unsup('all/any')
@m('Iterator::max', 'Iterator::min', 'Iterator::partition', 'Iterator::inspect')
def _iunsup(c): raise Unsup('iterator adaptor ' + c.p)
def fixed_items(c, v, top=8):
    """the elements of an iterator of a fixed small length, or None"""
    if not isit(v): return None
    n, d = it_norm(v)
    n = intconst(n) if isinstance(n, T) else None
    if n is None or n > top: return None
    return [dat(c.eng, c.st, d, const(i)) for i in range(n)]
def refd(c, s, x): return c.eng.refto(c.eng.tmp(s, x))
def packed(xs):
    """[(kept?, element)] -> an iterator over the kept elements"""
    slots, cnt = [UNDEF] * len(xs), ZERO
    for b, x in xs:
        for k in range(len(xs)): slots[k] = vite(band(b, eq0(sub(cnt, const(k)))), x, slots[k])
        cnt = add(cnt, ite(b, ONE, ZERO))
    return mkit(cnt, D('vals', Seq([('e', x) for x in slots], None)))
def truth(b): return strip_undef(b)
@m('Iterator::filter')
def _ifilter(c):
    v = itself(c); xs = fixed_items(c, v)
    if xs is None: return Agg(('dyn', 'filter'), [v, c.args[1]])
    f = refd(c, c.st, c.args[1])
    return packed([(truth(c.eng.call_value(c.st, f, [refd(c, c.st, x)], ('p', 'bool'))), x) for x in xs])
@m('Iterator::filter_map')
def _ifilter_map(c):
    v = itself(c); xs = fixed_items(c, v)
    if xs is None: return Agg(('dyn', 'filter_map'), [v, c.args[1]])
    f = refd(c, c.st, c.args[1])
    os = [c.eng.call_value(c.st, f, [x], None) for x in xs]
    if not all(isen(o) for o in os): raise Unsup('filter_map')
    return packed([(truth(isvar(o, 1)), o.pay[1][0] if 1 in o.pay else UNDEF) for o in os])
@m('Iterator::take_while', 'Iterator::skip_while')
def _iwhile(c):
    v = itself(c); xs = fixed_items(c, v)
    if xs is None: raise Unsup('iterator adaptor ' + c.p)
    e, st = c.eng, c.st
    take = 'take' in c.p; live = TRUE; out = []
    f = refd(c, st, c.args[1])
    for x in xs:
        s = st.branch(live)
        b = truth(e.call_value(s, f, [refd(c, s, x)], ('p', 'bool')))
        if s.eff or s.pan is not FALSE: raise Unsup('effectful ' + c.p)
        live = band(live, b)
        out.append((live if take else bnot(live), x))
    return packed(out)
@m('Iterator::flat_map', 'Iterator::flatten')
def _iflat(c):
    v = itself(c); xs = fixed_items(c, v, 64)
    if xs is None: raise Unsup('iterator adaptor ' + c.p)
    out = Seq([], None)
    f = refd(c, c.st, c.args[1]) if len(c.args) > 1 else None
    for x in xs:
        if f is not None: x = c.eng.call_value(c.st, f, [x], None)
        if isen(x) and short(x.tag) in ('Option', 'Result'):
            b = truth(isvar(x, 1 if short(x.tag) == 'Option' else 0))
            if b is TRUE: x = mkit(ONE, D('vals', Seq([('e', x.pay[1 if short(x.tag) == 'Option' else 0][0])], None)))
            elif b is FALSE: continue
            else: raise Unsup('flattened options')
        it = x if isit(x) else to_iter(c, x, None)
        if it is NotImplemented or not isit(it): raise Unsup('flattened iterator')
        out = seq_concat(out, collect_into(c, it, ('adt', 'alloc::vec::Vec', (('p', '?'),))))
    return mkit(out.length, D('vals', out))
@m('Iterator::position', 'Iterator::find', 'Iterator::find_map')
def _ifind(c):
    e, st = c.eng, c.st
    v = c.args[0]
    if c.argtys[0] and c.argtys[0][0] == 'ref':
        v = e.rd(st, e.deref(st, v))
        if not isit(v):
            v = to_iter(c, v, ty0(c))
            if v is NotImplemented: return NotImplemented
    xs = fixed_items(c, v, 16)
    if xs is None: raise Unsup('iterator adaptor ' + c.p)
    pos, isf, fm = 'position' in c.p, c.p.endswith('find'), 'find_map' in c.p
    f = refd(c, st, c.args[1])
    def go(s, i):
        if i == len(xs): return none()
        r = e.call_value(s, f, [refd(c, s, xs[i]) if isf else xs[i]], None if fm else ('p', 'bool'))
        return e.fork(s, isvar(r, 1) if fm else r, lambda s2: r if fm else some(const(i) if pos else xs[i]), lambda s2: go(s2, i + 1))
    return go(st, 0)
@m('Iterator::try_for_each', 'Iterator::try_fold')
def _itry(c):
    e, st = c.eng, c.st
    v = c.args[0]
    pl0 = None
    if c.argtys[0] and c.argtys[0][0] == 'ref':
        pl0 = e.deref(st, v)
        v = e.rd(st, pl0)
        if not isit(v) and not isdyn(v):
            v = to_iter(c, v, ty0(c))
            if v is NotImplemented: return NotImplemented
            pl0 = None
    t = c.ret
    if t is None or t[0] != 'adt' or t[1] not in (OPT, RES): raise Unsup('iterator adaptor ' + c.p)
    good = 1 if t[1] == OPT else 0
    wrap = some if t[1] == OPT else ok
    fold = c.p.endswith('fold')
    f = refd(c, st, c.args[2 if fold else 1])
    acc = e.tmp(st, c.args[1] if fold else UNIT)
    res = e.tmp(st, UNDEF); fail = e.tmp(st, FALSE)
    loc = newloc(); st.store[loc] = v
    pl = [(TRUE, loc, ())]
    tag = 'try%d' % loc
    def leave(s2):
        s2.exits.append(Exit(s2.pc, tag, UNIT, s2.store)); s2.store = dict(s2.store); s2.pc = FALSE
        return UNDEF
    def body(s):
        o = next_place(e, s, pl)
        def one(s2):
            r = e.call_value(s2, f, ([e.rd(s2, acc)] if fold else []) + [o.pay[1][0]], t)
            if not isen(r): raise Unsup('try closure')
            def okk(s3):
                e.wr(s3, acc, r.pay[good][0]); return UNDEF
            def bad(s3):
                e.wr(s3, res, r); e.wr(s3, fail, TRUE); return leave(s3)
            return e.fork(s2, isvar(r, good), okk, bad)
        e.fork(s, isvar(o, 1), one, leave)
    e.loop(st, body, {tag})
    if pl0 is not None: e.wr(st, pl0, e.rd(st, pl))
    return e.fork(st, e.rd(st, fail), lambda s: e.rd(s, res), lambda s: wrap(e.rd(s, acc)))
@m('Iterator::unzip')
def _iunzip(c):
    v = itself(c)
    if c.ret is None or c.ret[0] != 'tup': pass
    q = collect_into(c, v, ('adt', 'alloc::vec::Vec', (('p', '?'),)))
    def part(i):
        segs = []
        for g in q.segs:
            if g[0] == 'e' and isinstance(g[1], Agg) and len(g[1].fs) == 2: segs.append(('e', g[1].fs[i]))
            elif g[0] == 'm' and isinstance(g[3], Agg) and len(g[3].fs) == 2: segs.append(('m', g[1], g[2], g[3].fs[i]))
            else: raise Unsup('unzip')
        return Seq(segs, None)
    return Agg('()', [part(0), part(1)])
@m('Iterator::scan')
def _iscan(c): return Agg(('dyn', 'scan'), [itself(c), c.args[1], c.args[2]])
@m('iter::from_fn')
def _ifromfn(c): return Agg(('dyn', 'fromfn'), [c.args[0]])
@m('iter::successors')
def _isucc(c): return Agg(('dyn', 'succ'), [c.args[0], c.args[1]])

def collect_into(c, v, t):
    e, st = c.eng, c.st
    if t[0] == 'adt' and t[1] in (OPT, RES):
        s = collect_into(c, v, ('adt', 'alloc::vec::Vec', (t,)))
        n = s.length
        someix = 1 if t[1] == OPT else 0
        if s.all_e():
            allc = TRUE
            for x in s.els(): allc = band(allc, strip_undef(isvar(x, someix)))
            pay = Seq([('e', x.pay[someix][0]) for x in s.els()], t[2][0])
        else:
            k = var('k')
            with facts(sub(sub(n, ONE), k) if isinstance(n, T) else ZERO): x = seq_get(s, k)
            x = e.coerce(x, t)
            if not isen(x): raise Unsup('collect into Option')
            allc = app('all', n, Lam(k, strip_undef(isvar(x, someix))))
            pay = Seq([('m', n, k, x.pay[someix][0])], None)
        inner = t[2][0]
        pan0, full0 = st.pan, st.full
        def ft(s2):
            c2 = Ctx(e, s2, c.d, c.p, c.targs, c.rid, c.body, c.args, c.argtys, c.ret)
            r = collect_into(c2, mkit(n, D('vals', pay)), inner)
            return some(r) if t[1] == OPT else ok(r)
        return e.fork(st, allc, ft, lambda s2: none() if t[1] == OPT else err(ERR))
    if t[0] == 'adt' and short(t[1]) in ('Vec', 'LinkedList', 'VecDeque') or t[0] == 'slice' or (t[0] == 'adt' and short(t[1]) == 'Box'):
        ety = t[2][0] if t[0] == 'adt' else t[1]
        if t[0] == 'adt' and short(t[1]) == 'Box': ety = t[2][0][1]
        if isit(v) and v.fs[2].tag == ('d', 'vals'):
            n, d = it_norm(v)
            if d.tag == ('d', 'vals') and n.v == d.fs[0].length.v: return Seq(d.fs[0].segs, ety)
        out = e.tmp(st, Seq([], ety))
        def f(s, x):
            q = e.rd(s, out)
            e.wr(s, out, Seq(q.segs + (('e', x),), ety))
        each(c, v, f)
        return e.rd(st, out)
    im = None
    for im2 in e.db.impl_by_tr.get('core::iter::traits::collect::FromIterator', []):
        env = {}
        if unify(im2['a'][0], t, env): im = im2; break
    if im is not None:
        b = e.db.bodies[im['fns']['from_iter']]
        env = dict(env)
        own = [g for g in b['g'] if g not in im['g']]
        for g in own: env[g] = ('adt', 'model::It', ())
        return e.call_body(st, b, env, [v])
    raise Unsup('collect into ' + e.tkey(t))
@m('Iterator::collect')
def _icollect(c):
    return collect_into(c, itself(c), c.ret)
@m('FromIterator::from_iter')
def _fromiter(c):
    v = c.args[0]
    it = to_iter(c, v, c.argtys[0])
    if it is NotImplemented: return NotImplemented
    return collect_into(c, it, c.ret if c.ret is not None else c.targs[0])
@m('Extend::extend')
def _extend(c):
    e, st = c.eng, c.st
    pl, s = seqref(c)
    it = to_iter(c, c.args[1], c.argtys[1])
    if it is NotImplemented: return NotImplemented
    x = collect_into(c, it, ('adt', 'alloc::vec::Vec', (s.ety or ('o', ''),)))
    # extending by references copies the elements
    if x.segs and s.ety is not None and s.ety[0] != 'ref':
        segs = []
        for g in x.segs:
            if g[0] == 'e': segs.append(('e', e.cont(st, g[1])))
            elif g[0] == 'm': segs.append(('m', g[1], g[2], e.cont(st, g[3])))
            else: segs.append(g)
        x = Seq(segs, s.ety)
    e.wr(st, pl, seq_concat(e.rd(st, pl), x))
    return UNIT

# calls through Fn traits
@m('Fn::call', 'FnMut::call_mut', 'FnOnce::call_once')
def _call(c):
    a = c.args[1]
    args = list(a.fs) if isinstance(a, Agg) and a.tag == '()' else [a]
    return c.eng.call_value(c.st, c.args[0], args, c.ret)

# ------------------------------------------------------------------ linked list cursor: Agg(('cur',), [list ref, pos])
@m('LinkedList::cursor')
def _cursor(c): return Agg(('cur',), [c.args[0], ZERO])
def curs(c):
    pl = c.eng.deref(c.st, c.args[0])
    v = c.eng.rd(c.st, pl)
    lp = c.eng.deref(c.st, v.fs[0])
    return pl, v, lp, c.eng.rd(c.st, lp)
@m('Cursor::peek_next')
def _peek(c):
    pl, v, lp, s = curs(c)
    return option(ilt(v.fs[1], s.length), c.eng.refto(c.eng.ext(lp, ('i', v.fs[1]))))
@m('Cursor::seek_forward')
def _seek(c):
    pl, v, lp, s = curs(c)
    c.eng.wr(c.st, pl, Agg(v.tag, [v.fs[0], add(v.fs[1], c.args[1])])); return UNIT
@m('Cursor::insert')
def _cins(c):
    pl, v, lp, s = curs(c)
    i = v.fs[1]
    c.eng.wr(c.st, lp, seq_concat(seq_slice(s, ZERO, i), Seq([('e', c.args[1])], s.ety), seq_slice(s, i, s.length))); return UNIT
@m('Cursor::remove')
def _crem(c):
    pl, v, lp, s = curs(c)
    i = v.fs[1]
    x = seq_get(s, i)
    c.eng.wr(c.st, lp, seq_concat(seq_slice(s, ZERO, i), seq_slice(s, add(i, ONE), s.length)))
    return option(ilt(i, s.length), x)

# ------------------------------------------------------------------ field elements (ff)
def fplace(c, i=0): return c.eng.deref(c.st, c.args[i])
def fval(c, i):
    v = c.eng.cont(c.st, c.args[i])
    return scal(v) if isinstance(v, (T, Ite)) or isinstance(v, Agg) and len(v.fs) == 1 else packf(v)
def packf(v): return opaque(v)
@m('Field::zero', 'Field::one')
def _fz(c): return ZERO if c.d.endswith('zero') else ONE
@m('Field::is_zero')
def _fiz(c): return eq0(fval(c, 0))
@m('Field::add_assign')
def _fadd(c): c.eng.wr(c.st, fplace(c), add(fval(c, 0), fval(c, 1))); return UNIT
@m('Field::sub_assign')
def _fsub(c): c.eng.wr(c.st, fplace(c), sub(fval(c, 0), fval(c, 1))); return UNIT
@m('Field::mul_assign')
def _fmul(c): c.eng.wr(c.st, fplace(c), mul(fval(c, 0), fval(c, 1))); return UNIT
@m('Field::negate')
def _fneg(c): c.eng.wr(c.st, fplace(c), neg(fval(c, 0))); return UNIT
@m('Field::double')
def _fdbl(c): x = fval(c, 0); c.eng.wr(c.st, fplace(c), add(x, x)); return UNIT
@m('Field::square')
def _fsq(c): x = fval(c, 0); c.eng.wr(c.st, fplace(c), mul(x, x)); return UNIT
@m('Field::inverse')
def _finv(c):
    x = fval(c, 0)
    return option(bnot(eq0(x)), inv(x))
@m('Field::pow')
def _fpow(c): return rawapp('fpow', fval(c, 0), opaque(c.eng.deep(c.st, c.args[1])))
@m('SqrtField::sqrt')
def _fsqrt(c):
    def f(x):
        if x is ZERO: return some(ZERO)
        t = rawapp('sqrt', x)
        return En(OPT, ite(bvar(rawapp('issq', x)), ONE, ZERO), {0: (), 1: (t,)})
    return lift(f, fval(c, 0))
def fieldty(c): return c.eng.tkey(c.targs[0]) if c.targs else '?'
@m('PrimeField::char')
def _char(c): return sp('char:' + fieldty(c))
@m('PrimeField::into_repr')
def _irepr(c):
    return lift(lambda x: app('repr', x), fval(c, 0))
@m('PrimeField::into_raw_repr')
def _irawrepr(c):
    return lift(lambda x: app('repr', ZERO) if x is ZERO else rawapp('rawrepr', x), fval(c, 0))
def _sm_repr(x):
    if isinstance(x, T) and x.op == 'app' and x.args[0] == 'from_repr': return x.args[1]
SMART['repr'] = _sm_repr
@m('PrimeField::from_repr', 'PrimeField::from_raw_repr')
def _fromrepr(c):
    v = c.args[0]
    if isinstance(v, Seq): v = app('pack', v)
    v = opaque(v)
    raw = 'raw' in c.d
    def f(x):
        if x.op == 'app' and x.args[0] == 'repr': return ok(x.args[1])
        return En(RES, ite(bvar(app('inrange', x, fieldty(c))), ZERO, ONE), {0: (app('from_raw' if raw else 'from_repr', x),), 1: (ERR,)})
    return lift(f, v)
@m('PrimeFieldRepr::is_odd', 'PrimeFieldRepr::is_even', 'PrimeFieldRepr::is_zero')
def _isodd(c):
    x = opaque(c.eng.cont(c.st, c.args[0]))
    if c.d.endswith('is_zero'): return lift(lambda y: eq0(y.args[1]) if y.op == 'app' and y.args[0] == 'repr' else bvar(rawapp('rzero', y)), x)
    r = lift(lambda y: bitof(y, ZERO), x)
    return r if c.d.endswith('is_odd') else bnot(r)
@m('PrimeField::from_str')
def _fstr(c): return NotImplemented
@m('ToString::to_string')
def _tostr(c): return rawapp('to_string', opaque(c.eng.deep(c.st, c.args[0])))
@m('str::as_bytes', 'String::as_bytes', 'String::into_bytes')
def _asbytes(c):
    v = opaque(c.eng.deep(c.st, c.args[0]))
    x = Seq([('o', rawapp('as_bytes', v), rawapp('strlen', v))], ('p', 'u8'))
    return x if c.p.endswith('into_bytes') else R(c, x)
@m('PhantomData::clone')
def _ph(c): return UNIT
@m('fmt::format')
def _fmt(c): return rawapp('format', opaque(c.eng.deep(c.st, c.args[0])))
@m('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex')
def _arg(c): return rawapp('fmtarg:' + c.p.rsplit('_', 1)[1], opaque(c.eng.deep(c.st, c.args[0])))
@m('Arguments::new')
def _args(c): return rawapp('fmtargs', opaque(c.eng.deep(c.st, c.args[0])), opaque(c.eng.deep(c.st, c.args[1])))
@m('Arguments::from_str', 'Arguments::new_const')
def _args1(c): return rawapp('fmtargs', opaque(c.eng.deep(c.st, c.args[0])))
@m('Error::new', 'Error::custom', 'Error::other')
def _errnew(c): return ERR

# ------------------------------------------------------------------ blake2s: the digest is a function of the parameters and the bytes fed
@m('Blake2s::with_params')
def _b2p(c): return Agg(('blake',), [opaque(c.eng.deep(c.st, a)) for a in c.args] + [Seq([], ('p', 'u8'))])
@m('Blake2s::new')
def _b2n(c):
    e = Seq([], ('p', 'u8'))
    return Agg(('blake',), [opaque(c.args[0]), opaque(e), opaque(e), opaque(e), e])
@m('Blake2s::update')
def _b2u(c):
    pl = c.eng.deref(c.st, c.args[0])
    v = c.eng.rd(c.st, pl)
    d = c.eng.cont(c.st, c.args[1])
    if not (isinstance(v, Agg) and v.tag == ('blake',)): return NotImplemented
    if not isinstance(d, Seq): d = Seq([('o', opaque(d), app('len', opaque(d)))], ('p', 'u8'))
    c.eng.wr(c.st, pl, Agg(v.tag, list(v.fs[:4]) + [seq_concat(v.fs[4], d)])); return UNIT
@m('Blake2s::finalize')
def _b2f(c):
    v = c.eng.deep(c.st, c.args[0])
    if not (isinstance(v, Agg) and v.tag == ('blake',)): return NotImplemented
    return Agg(('digest',), [Seq([('o', rawapp('blake2s', *[opaque(x) for x in v.fs]), v.fs[0])], ('p', 'u8'))])
@m('Blake2sResult::as_bytes', 'Blake2sResult::as_ref')
def _b2r(c):
    v = byval(c, 0)
    return R(c, v.fs[0]) if isinstance(v, Agg) and v.tag == ('digest',) else NotImplemented

# ------------------------------------------------------------------ concrete prime fields of the pairing crates
_MOD = {'bn256::fq::Fq': 21888242871839275222246405745257275088696311157297823662689037894645226208583,
        'bn256::fr::Fr': 21888242871839275222246405745257275088548364400416034343698204186575808495617,
        'bls12_381::fq::Fq': 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab,
        'bls12_381::fr::Fr': 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001}
_R = {'bn256::fq::Fq': 256, 'bn256::fr::Fr': 256, 'bls12_381::fq::Fq': 384, 'bls12_381::fr::Fr': 256}
def modulus(t):
    if t is None or t[0] != 'adt': return None, None
    for k, p in _MOD.items():
        if t[1].endswith(k): return p, _R[k]
    return None, None
def constlimbs(v):
    """integer of a constant limb array"""
    while isinstance(v, Agg) and len(v.fs) == 1: v = v.fs[0]
    if not isinstance(v, Seq): return None
    xs = []
    for g in v.segs:
        if g[0] != 'e': return None
        x = intconst(g[1]) if isinstance(g[1], T) else None
        if x is None: return None
        xs.append(x)
    return sum(x << 64 * i for i, x in enumerate(xs))
_fromrepr_sym = M['PrimeField::from_repr']
@m('PrimeField::from_repr', 'PrimeField::from_raw_repr')
def _fromrepr_const(c):
    p, r = modulus(c.targs[0] if c.targs else None)
    n = constlimbs(c.eng.deep(c.st, c.args[0])) if p else None
    if n is None: return _fromrepr_sym(c)
    if n >= p: return err(ERR)
    return ok(const(n * pow(1 << r, -1, p) % p if 'raw' in c.d else n))
@m('PrimeField::from_str')
def _fstr(c):
    a = scal(c.eng.deep(c.st, c.args[0])) if isinstance(c.eng.deep(c.st, c.args[0]), (T, Ite)) else None
    if isinstance(a, T) and a.op == 'app' and a.args[0] == 'str' and a.args[1].args[0][1:].isdigit():
        n = int(a.args[1].args[0][1:])
        p, _ = modulus(c.targs[0])
        return some(const(n % p if p else n))
    return NotImplemented
@m('Lazy::get')
def _lazy(c): return R(c, c.eng.call_value(c.st, c.args[1], [], None))

# quadratic extension Fq[u]/(u^2+1) of both pairing crates: pairs of base field elements
def isfq2(t):
    if t is None: return False
    t = peel(t)
    return t[0] == 'adt' and t[1].split('::')[-1] == 'Fq2' and 'pairing' in t[1]
def fq2(c, i):
    v = byval(c, i)
    if isinstance(v, Agg) and len(v.fs) == 2: return [scal(f) for f in v.fs]
    if isinstance(v, T): return [scal(c.eng.field_of(v, 0, j)) for j in (0, 1)]
    raise Unsup('extension field element')
def _q2(nm):
    old = M['Field::' + nm]
    def f(c):
        t = c.targs[0] if c.targs else None
        if not isfq2(t): return old(c)
        tag = peel(t)[1]
        mk = lambda a, b: Agg(tag, [a, b])
        if nm in ('zero', 'one'): return mk(ONE if nm == 'one' else ZERO, ZERO)
        a, b = fq2(c, 0)
        if nm == 'is_zero': return band(eq0(a), eq0(b))
        if nm == 'inverse':
            n = add(mul(a, a), mul(b, b))
            return option(bnot(band(eq0(a), eq0(b))), mk(mul(a, inv(n)), neg(mul(b, inv(n)))))
        if nm in ('add_assign', 'sub_assign', 'mul_assign'): x, y = fq2(c, 1)
        r = {'add_assign': lambda: (add(a, x), add(b, y)), 'sub_assign': lambda: (sub(a, x), sub(b, y)),
             'mul_assign': lambda: (sub(mul(a, x), mul(b, y)), add(mul(a, y), mul(b, x))), 'negate': lambda: (neg(a), neg(b)),
             'double': lambda: (add(a, a), add(b, b)), 'square': lambda: (sub(mul(a, a), mul(b, b)), mul(const(2), mul(a, b)))}[nm]()
        c.eng.wr(c.st, fplace(c), mk(*r)); return UNIT
    M['Field::' + nm] = f
for _n in 'zero one is_zero add_assign sub_assign mul_assign negate double square inverse'.split(): _q2(_n)

# ------------------------------------------------------------------ fixed-width integers as bytes
_W = {'u16': 2, 'u32': 4, 'u64': 8, 'u128': 16, 'i32': 4, 'i64': 8}
def byteof(x, i): return lift(lambda y: const(intconst(y) >> 8 * i & 255) if intconst(y) is not None and intconst(y) >= 0 else rawapp('byte', y, i), scal(x))
def intbytes(x, w, big):
    bs = [byteof(x, i) for i in range(w)]
    return Seq([('e', b) for b in (reversed(bs) if big else bs)], ('p', 'u8'))
def bytesint(s, w, big):
    """integer of w bytes"""
    xs = [scal(seq_get(s, const(i))) for i in range(w)]
    if big: xs.reverse()
    def f(*ys):
        b = {y.args[1].v for y in ys if isinstance(y, T) and y.op == 'app' and y.args[0] == 'byte'}
        if len(b) == 1 and all(isinstance(y, T) and y.op == 'app' and y.args[0] == 'byte' and y.args[2] == i for i, y in enumerate(ys)): return ys[0].args[1]
        if all(intconst(y) is not None for y in ys): return const(sum(intconst(y) << 8 * i for i, y in enumerate(ys)))
        return rawapp('leint', *ys)
    return lift(f, *xs)
def _tob(c):
    t = c.p.split('::')
    nm = t[-1]
    ty = ty0(c)
    w = _W.get(ty[1]) if ty is not None and ty[0] == 'p' else None
    if w is None: return NotImplemented
    return intbytes(byval(c, 0), w, 'be' in nm)
def _fromb(c):
    w = _W.get(c.ret[1]) if c.ret is not None and c.ret[0] == 'p' else None
    v = c.eng.cont(c.st, c.args[0])
    if w is None or not isinstance(v, Seq): return NotImplemented
    return bytesint(v, w, '_be_' in c.p.rsplit('::', 1)[1])
for _t in _W:
    for _n in ('to_le_bytes', 'to_be_bytes', 'to_ne_bytes'): M['%s::%s' % (_t, _n)] = M['num::' + _n] = _tob
    for _n in ('from_le_bytes', 'from_be_bytes', 'from_ne_bytes'): M['%s::%s' % (_t, _n)] = M['num::' + _n] = _fromb
def bigend(c):
    s = str(c.targs)
    if 'LittleEndian' in s: return False
    if 'BigEndian' in s: return True
def bo_write(c):
    e, st = c.eng, c.st
    w = _W.get(c.d.rsplit('_', 1)[1])
    big = bigend(c)
    t = c.argtys[0]
    if w is None or big is None or t is None: return NotImplemented
    b = intbytes(c.args[1], w, big)
    inner = peel(t)
    pl = target(c, 0)
    v = e.rd(st, pl)
    if not isinstance(v, Seq): return NotImplemented
    if inner[0] == 'slice':
        n = v.length
        short_ = ilt(n, const(w))
        if short_ is not FALSE: return NotImplemented
        for i in range(w): e.wr(st, e.ext(pl, ('i', const(i))), seq_get(b, const(i)))
        rp = e.deref(st, c.args[0])
        if isinstance(e.rd(st, rp), T): e.wr(st, rp, e.refto(e.ext(pl, ('sl', const(w), n))))
        return ok(UNIT)
    if inner[0] == 'adt' and short(inner[1]) == 'Vec': e.wr(st, pl, seq_concat(v, b)); return ok(UNIT)
    return NotImplemented
def bo_read(c):
    e, st = c.eng, c.st
    w = _W.get(c.d.rsplit('_', 1)[1])
    big = bigend(c)
    if w is None or big is None or c.argtys[0] is None: return NotImplemented
    pl = target(c, 0)
    v = e.rd(st, pl)
    if peel(c.argtys[0])[0] != 'slice' or not isinstance(v, Seq): return NotImplemented
    n = v.length
    if ilt(n, const(w)) is not FALSE: return NotImplemented
    x = bytesint(v, w, big)
    rp = e.deref(st, c.args[0])
    if isinstance(e.rd(st, rp), T): e.wr(st, rp, e.refto(e.ext(pl, ('sl', const(w), n))))
    return ok(x)
def bo_slice(c):
    """ByteOrder::read_uN / write_uN on slices"""
    e, st = c.eng, c.st
    nm = c.d.rsplit('::', 1)[1]
    w, big = _W.get(nm.rsplit('_', 1)[1]), bigend(c)
    if w is None or big is None: return NotImplemented
    pl = target(c, 0); v = e.rd(st, pl)
    if not isinstance(v, Seq) or ilt(v.length, const(w)) is not FALSE: return NotImplemented
    if nm.startswith('read'): return bytesint(v, w, big)
    b = intbytes(c.args[1], w, big)
    for i in range(w): e.wr(st, e.ext(pl, ('i', const(i))), seq_get(b, const(i)))
    return UNIT
for _t in ('u16', 'u32', 'u64'):
    M['WriteBytesExt::write_' + _t] = bo_write
    M['ReadBytesExt::read_' + _t] = bo_read
    M['ByteOrder::read_' + _t] = M['ByteOrder::write_' + _t] = bo_slice
