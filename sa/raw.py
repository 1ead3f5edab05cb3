"""Linear combinations as explicit lists.

A list over a small universe of variables is kept as one (coefficient, present) entry per variable in list order; a
cursor is the rank of the next entry.  Coefficients stay symbolic, every pattern of present entries is analysed."""
from terms import *
import terms as TM
from engine import *
from models import byval, mkit, D
import contracts, itertools

IDX = 'fawkes_crypto::circuit::num::Index'
U = [(0, 0), (0, 1), (1, 0)]        # Input(0) is the constant one, Input(1), Aux(0)
def idx(r): return En(IDX, const(U[r][0]), {0: (const(U[r][1]),), 1: (const(U[r][1]),)})
def iota(r): return ONE if r == 0 else sp('var%d' % r)

def ll(ents): return Agg('LL', ents)
def ent(r, coef, present): return Agg('tuple', [idx(r), coef, present])
def empty(): return ll([ent(r, ZERO, FALSE) for r in range(len(U))])
def isll(v): return isinstance(v, Agg) and v.tag == 'LL'
def lin(v):
    s = ZERO
    for r, e in enumerate(v.fs): s = add(s, ite(e.fs[2], mul(e.fs[1], iota(r)), ZERO))
    return s

def place(c, i=0):
    v = c.args[i]
    return c.eng.deref(c.st, v)
def cont(c, i=0):
    pl = place(c, i)
    v = c.eng.rd(c.st, pl)
    while isinstance(v, T) and v.op == 'ref':
        pl = c.eng.deref(c.st, v); v = c.eng.rd(c.st, pl)
    return pl, v

def _new(c): return empty()
def rank_of(v):
    """rank of an Index value (constant)"""
    if not isinstance(v, En): raise Unsup('index')
    d = intconst(v.disc)
    n = intconst(scal(v.pay[d][0])) if d is not None else None
    if (d, n) not in U: raise Unsup('index outside the universe')
    return U.index((d, n))
def _push_back(c):
    pl, v = cont(c)
    if not isll(v): return NotImplemented
    x = c.args[1]
    r = rank_of(x.fs[0])
    bad = FALSE
    for q in range(r, len(U)): bad = bor(bad, v.fs[q].fs[2])
    if bad is not FALSE: c.eng.emit(c.st, 'order', bad)
    fs = list(v.fs); fs[r] = ent(r, x.fs[1], TRUE)
    c.eng.wr(c.st, pl, ll(fs))
    return UNIT
def _len(c):
    pl, v = cont(c)
    if not isll(v): return NotImplemented
    n = ZERO
    for e in v.fs: n = add(n, ite(e.fs[2], ONE, ZERO))
    return n
def first(c, pl, v, frm):
    """(any present at or after frm, reference to it, its rank)"""
    some_, ref, rk = FALSE, UNDEF, ZERO
    for r in reversed(range(len(U))):
        ok = band(v.fs[r].fs[2], bnot(ilt(const(r), frm)))
        x = c.eng.refto(c.eng.ext(pl, ('f', 0, r)))
        ref = ite(ok, x, ref); rk = ite(ok, const(r), rk); some_ = bor(some_, ok)
    return some_, ref, rk
def _front(c):
    pl, v = cont(c)
    if not isll(v): return NotImplemented
    s, ref, _ = first(c, pl, v, ZERO)
    return option(s, ref)
def _back(c):
    pl, v = cont(c)
    if not isll(v): return NotImplemented
    s, ref = FALSE, UNDEF
    for r in range(len(U)):
        ok = v.fs[r].fs[2]
        ref = ite(ok, c.eng.refto(c.eng.ext(pl, ('f', 0, r))), ref); s = bor(s, ok)
    return option(s, ref)
def _iter(c):
    pl, v = cont(c)
    if not isll(v): return NotImplemented
    refs = []
    for r, e in enumerate(v.fs):
        if e.fs[2] is FALSE: continue
        if e.fs[2] is not TRUE: raise Unsup('iteration over a conditional list')
        refs.append(('e', c.eng.refto(c.eng.ext(pl, ('f', 0, r)))))
    s = Seq(refs, None)
    return mkit(s.length, D('vals', s))
def _intoiter(c):
    v = c.args[0]
    if isll(v): raise Unsup('list by value')
    if isinstance(v, T) and v.op == 'ref':
        x = c.eng.rd(c.st, c.eng.deref(c.st, v))
        if isll(x): return _iter(c)
    return NotImplemented
def _cursor(c):
    pl, v = cont(c)
    if not isll(v): return NotImplemented
    return Agg('CUR', [c.eng.refto(pl), ZERO])
def cur(c):
    pl, v = cont(c)
    if not (isinstance(v, Agg) and v.tag == 'CUR'): raise Unsup('cursor')
    lp = c.eng.deref(c.st, v.fs[0])
    return pl, v, lp, c.eng.rd(c.st, lp)
def _peek_next(c):
    pl, v, lp, l = cur(c)
    s, ref, _ = first(c, lp, l, v.fs[1])
    return option(s, ref)
def _next(c):
    pl, v, lp, l = cur(c)
    s, ref, rk = first(c, lp, l, v.fs[1])
    c.eng.wr(c.st, pl, Agg('CUR', [v.fs[0], ite(s, add(rk, ONE), ZERO)]))
    return option(s, ref)
def _seek(c):
    n = intconst(scal(c.args[1]))
    if n is None: raise Unsup('seek')
    for _ in range(n): _next(c)
    return UNIT
def _insert(c):
    pl, v, lp, l = cur(c)
    x = c.args[1]
    r = rank_of(x.fs[0])
    bad = ilt(const(r), v.fs[1])
    for q in range(0, r + 1): bad = bor(bad, band(l.fs[q].fs[2], bnot(ilt(const(q), v.fs[1]))))
    if bad is not FALSE: c.eng.emit(c.st, 'order', bad)
    fs = list(l.fs); fs[r] = ent(r, x.fs[1], TRUE)
    c.eng.wr(c.st, lp, ll(fs))
    return UNIT
def _remove(c):
    pl, v, lp, l = cur(c)
    s, ref, rk = first(c, lp, l, v.fs[1])
    fs = []
    for r, e in enumerate(l.fs):
        hit = band(s, eq0(sub(rk, const(r)))) if not isinstance(rk, T) or intconst(rk) is None else band(s, boolv(intconst(rk) == r))
        fs.append(Agg('tuple', [e.fs[0], e.fs[1], band(e.fs[2], bnot(hit))]))
    c.eng.wr(c.st, lp, ll(fs))
    return option(s, UNDEF)
def _clone(c):
    pl, v = cont(c)
    return v if isll(v) else NotImplemented

RAW = dict(contracts.NUM)
RAW.update({'LinkedList::new': _new, 'LinkedList::push_back': _push_back, 'LinkedList::len': _len, 'LinkedList::front': _front, 'LinkedList::back': _back,
    'LinkedList::iter': _iter, 'LinkedList::iter_mut': _iter, 'LinkedList::cursor': _cursor, 'Cursor::peek_next': _peek_next, 'Cursor::next': _next,
    'Cursor::seek_forward': _seek, 'Cursor::insert': _insert, 'Cursor::remove': _remove, 'IntoIterator::into_iter': _intoiter, 'Clone::clone@LinkedList': _clone,
    'ConstraintSystem::alloc': lambda c: (c.eng.emit(c.st, 'ralloc', c.eng.deep(c.st, byval(c, 1))), idx(2))[1]})

def number(name, pat):
    """circuit number with the given entries"""
    es = [ent(r, sp('%s%d' % (name, r)) if pat[r] else ZERO, boolv(pat[r])) for r in range(len(U))]
    v = ll(es)
    k = not any(pat[1:])
    return v, k
def raw_cnum(eng, name, pat):
    l, k = number(name, pat)
    return Agg('fawkes_crypto::circuit::num::CNum', [option(TRUE if k else eng.W, lin(l)), l, mkref(memloc(sp('cs'), ('par', 'CS')))]), l, k

OPS = {'add': lambda a, b: add(a, b), 'sub': lambda a, b: sub(a, b), 'cadd': add, 'csub': sub, 'cmul': mul, 'cdiv': div,
       'ladd': add, 'lsub': sub, 'lmul': mul}

def _agree(cond, x, y, what, bad, where):
    """x == y wherever cond holds"""
    import elim
    names = {sp(n): var('a') for n in NAMES}
    r = lambda v: subst(v, names, True)
    def leaf(b):
        p, q = b.pairs[0]
        if p is UNDEF and q is UNDEF: return
        if p is UNDEF or q is UNDEF or elim.cpoly(sub(p, q)): bad.append('%s is %s where %s is required (%s%s)' % (what, show(x, 6), show(y, 6), where, '; '.join(b.log)))
    elim.explore(elim.Box(r(cond), TRUE, [(r(scal(x)), r(scal(y)))]), leaf)
NAMES = ['%s%d' % (c, r) for c in 'ab' for r in range(3)] + ['num', 'var1', 'var2']

def _never(cond, msg, bad):
    import elim
    names = {sp(n): var('a') for n in NAMES}
    hit = []
    elim.explore(elim.Box(subst(cond, names, True), TRUE, [(ZERO, ZERO)]), lambda b: hit.append(b))
    if hit: bad.append(msg)
def _implies(c, d, msg, bad):
    if band(c, bnot(d)) is not FALSE: bad.append(msg)

def linfold(pr):
    """linear operations emit nothing, and give constants for constants"""
    return linop(pr, True)
def linop(pr, only=False):
    import pairs
    mod, form = pr.s.split('::')[1:3]
    b = pairs.find(pr.s)
    if b is None: raise Unsup('no entry')
    bad, n, eff = [], 0, 0
    fns = set(); calls = 0
    pats = list(itertools.product((0, 1), repeat=len(U)))
    sides = {'add': 'NN', 'sub': 'NN', 'neg': 'N'}.get(mod) or ('Nc' if mod[0] == 'c' else 'cN')
    for combo in itertools.product(*[pats if s == 'N' else [None] for s in sides]):
        e = Engine(pairs.db(), 'raw', RAW, unroll=12)
        init, ex = {}, []
        MEM.clear()
        for i, (s, p) in enumerate(zip(sides, combo)):
            if s == 'N':
                v, l, k = raw_cnum(e, 'ab'[i], p)
                init[i] = v; ex.append((lin(l), TRUE if k else e.W))
            else:
                init[i] = Agg('fawkes_crypto::native::num::Num', [sp('num')]); ex.append((sp('num'), TRUE))
        S = e.run(b, {}, init=init)
        if e.unknown: return {'res': 'unsup', 'why': 'unmodelled calls ' + ', '.join(sorted(e.unknown))}
        fns |= e.analysed; calls += e.ncalls; n += 1
        R = S.outs[0] if 0 in S.outs else S.ret
        if not (isinstance(R, Agg) and len(R.fs) == 3 and isll(R.fs[1])): raise Unsup('result shape')
        want = neg(ex[0][0]) if mod == 'neg' else OPS[mod](ex[0][0], ex[1][0])
        known = ex[0][1] if mod == 'neg' else band(ex[0][1], ex[1][1])
        care = bnot(eq0(sp('num'))) if mod == 'cdiv' else TRUE
        where = 'entries %s; ' % (combo,)
        if not only and band(care, S.pan) is not FALSE: bad.append('panics (%s)' % where)
        for g, k, pl in S.eff:
            eff += 1
            if not only and k == 'order' and band(g, pl[0]) is not FALSE: bad.append('terms of the result are out of order or duplicated (%s)' % where)
            if k in ('ralloc', 'alloc', 'input', 'eq'): bad.append('a linear operation emits constraints or variables (%s)' % where)
        if only:
            if all(not p or not any(p[1:]) for p in combo):
                for r in range(1, len(U)): _never(band(care, R.fs[1].fs[r].fs[2]), 'the result of constants is not a constant (%s)' % where, bad)
            if len(bad) > 3: break
            continue
        _agree(care, lin(R.fs[1]), want, 'the linear combination', bad, where)
        nz = care                 # no zero coefficients go in: none come out
        for i, (s, p) in enumerate(zip(sides, combo)):
            for r in range(1, len(U)):
                if s == 'N' and p[r]: nz = band(nz, bnot(eq0(sp('%s%d' % ('ab'[i], r)))))
        for r in range(1, len(U)):
            en = R.fs[1].fs[r]
            _never(band(nz, band(en.fs[2], eq0(en.fs[1]))), 'a cancelled term stays in the combination with coefficient zero (%s)' % where, bad)
        have = isvar(R.fs[0], 1)
        if band(care, band(known, bnot(have))) is not FALSE: bad.append('the value is lost (%s)' % where)
        if have is not FALSE: _agree(band(care, have), R.fs[0].pay[1][0], want, 'the value', bad, where)
        if len(bad) > 3: break
    out = {'functions': sorted(x for x in fns if not x.startswith('harness')), 'calls': calls, 'effects': n}
    if bad: return dict(out, res='diff', what='%s: %s' % (pr.name, bad[0]), report='\n'.join(bad))
    return dict(out, res='eq')

def view(pr):
    """constant view, value view, clone, constructors"""
    import pairs
    form = pr.s.split('::')[2]
    b = pairs.find(pr.s)
    if b is None: raise Unsup('no entry')
    bad, n = [], 0
    fns = set(); calls = 0
    def lcof(R):
        if not (isinstance(R, Agg) and len(R.fs) == 3 and isll(R.fs[1])): raise Unsup('result shape')
        return R.fs[1]
    def go(init):
        nonlocal n, calls
        S = e.run(b, {}, init=init)
        n += 1; calls += e.ncalls; fns.update(e.analysed)
        if e.unknown: raise Unsup('unmodelled calls ' + ', '.join(sorted(e.unknown)))
        if S.pan is not FALSE: bad.append('panics')
        for g, k, pl in S.eff:
            if k == 'order' and band(g, pl[0]) is not FALSE: bad.append('terms out of order')
        return S
    pats = list(itertools.product((0, 1), repeat=len(U)))
    if form in ('as_const', 'get_value', 'clone'):
        for p in pats:
            e = Engine(pairs.db(), 'raw', RAW, unroll=12); MEM.clear()
            v, l, k = raw_cnum(e, 'a', p)
            S = go({0: v}); R = S.ret; w = 'entries %s; ' % (p,)
            if form == 'clone':
                _agree(TRUE, lin(lcof(R)), lin(l), 'the copy', bad, w)
                if R.fs[0].v != v.fs[0].v: bad.append('value changed')
                continue
            have = isvar(R, 1)
            if form == 'as_const':
                if have is not boolv(k): bad.append('constant view answers %s for a number %s (%s)' % (show(have), 'without variables' if k else 'with variables', w))
                elif k: _agree(TRUE, R.pay[1][0], lin(l), 'the constant view', bad, w)
            else:
                _implies(TRUE if k else e.W, have, 'value lost ' + w, bad)
                _agree(have, R.pay[1][0], lin(l), 'the value view', bad, w)
    else:
        e = Engine(pairs.db(), 'raw', RAW, unroll=12); MEM.clear()
        N = lambda x: Agg('fawkes_crypto::native::num::Num', [x])
        if form == 'from_const':
            R = go({1: N(sp('num'))}).ret
            _agree(TRUE, lin(lcof(R)), sp('num'), 'the constant', bad, '')
            if isvar(R.fs[0], 1) is not TRUE: bad.append('the value of a constant is unknown')
            else: _agree(TRUE, R.fs[0].pay[1][0], sp('num'), 'the value', bad, '')
        else:
            h = option(e.W, N(sp('num')))
            if form == 'from_var': init = {1: h, 2: idx(2)}
            elif form == 'derive_var': init = {0: raw_cnum(e, 'a', (1, 1, 0))[0], 1: h, 2: idx(2)}
            else:
                l = newloc()
                init = {1: option(e.W, N(sp('num')))}
            S = go(init); R = S.ret
            _agree(TRUE, lin(lcof(R)), sp('var2'), 'the variable', bad, '')
            have = isvar(R.fs[0], 1)
            if biff(have, e.W) is not TRUE: bad.append('the witness is %s' % show(have))
            _agree(have, R.fs[0].pay[1][0], sp('num'), 'the witness value', bad, '')
            if form == 'alloc':
                al = [pl for g, k, pl in S.eff if k == 'ralloc']
                if len(al) != 1: bad.append('%d allocations' % len(al))
                else:
                    v = al[0][0]
                    if not isinstance(v, En) or biff(isvar(v, 1), e.W) is not TRUE: bad.append('the witness handed to the back end is missing')
                    else: _agree(e.W, v.pay[1][0], sp('num'), 'the witness handed to the back end', bad, '')
    out = {'functions': sorted(x for x in fns if not x.startswith('harness')), 'calls': calls, 'effects': n}
    if bad: return dict(out, res='diff', what='%s: %s' % (pr.name, bad[0]), report='\n'.join(bad))
    return dict(out, res='eq')
