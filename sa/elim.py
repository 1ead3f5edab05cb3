"""Wire elimination: decides what the equations recorded by a primitive gadget admit.

acc(args, wires)  - no panic and every recorded equation holds
The wires are removed by solving the equations (linear in one wire, nonzero coefficient), splitting on whether
coefficients vanish.  What remains must agree with the meaning of the gadget (its contract run on the same function)."""
from terms import *
import terms as TM
from engine import *
from compare import *
import contracts

class Undecided(Exception): pass

def scalars(v, out):
    """scalar components of a value"""
    if isinstance(v, (T, Ite)):
        out.append(v)
    elif isinstance(v, Agg):
        if v.tag == 'CNum': out.append(v.fs[0]); return
        for f in v.fs: scalars(f, out)
    elif isinstance(v, En):
        out.append(v.disc)
        for k in sorted(v.pay):
            for f in v.pay[k]: scalars(f, out)
    elif isinstance(v, Seq):
        for g in v.segs:
            if g[0] != 'e': raise Undecided('sequence result')
            scalars(g[1], out)
    return out

class Prob: pass

def flat(eff):
    for g, k, pl in eff:
        if k == 'loop': raise Undecided('loop of constraints')
        yield g, k, pl

def setup(S, args):
    """wires -> fresh variables"""
    p = Prob()
    wires = []
    for g, k, pl in flat(S.eff):
        if k in ('alloc', 'input'):
            if pl[0] not in [w for w, _, _, _ in wires]: wires.append((pl[0], g, pl[1], k))
    p.wires = wires
    p.wv = {w: var('w') for w, _, _, _ in wires}
    p.av = {a: var('a') for a in args}
    return p

def ren(p, x):
    x = subst(x, p.wv, True) if p.wv else x
    return subst(x, p.av, True)

def conj(S, W, w):
    c = bnot(cofactor(S.pan, W, w)) if S.pan is not FALSE else TRUE
    for g, k, pl in flat(S.eff):
        if k == 'eq': x = eq0(pl[0])
        elif k == 'nz': x = bnot(eq0(pl[0]))
        else: continue
        c = band(c, bor(bnot(g), x))
    return cofactor(c, W, w) if isinstance(c, Ite) else c

def mapatoms(x, f, memo=None):
    memo = {} if memo is None else memo
    if isinstance(x, Ite):
        r = memo.get(x.id)
        if r is None:
            c = f(x.at)
            hi, lo = mapatoms(x.hi, f, memo), mapatoms(x.lo, f, memo)
            r = ite(c, hi, lo) if c is not None else ite(mkcond(x.at), hi, lo)
            memo[x.id] = r
        return r
    return x

# ------------------------------------------------------------------ polynomials with cleared denominators
def cpoly(t):
    """polynomial (dict) equivalent to t up to nonzero denominators"""
    for _ in range(12):
        p = poly(t)
        den = None
        for m in p:
            for a in m:
                x = TM._TT[a]
                if x.op == 'inv': den = x; break
            if den: break
        if den is None: return p
        # multiply by the denominator: monomials with inv(a) lose it, the others gain a
        q = {}
        da = poly(den.args[0])
        for m, c in p.items():
            l = list(m)
            if den.v in l:
                l.remove(den.v); k = tuple(l); q[k] = q.get(k, 0) + c
            else:
                for n, d in da.items():
                    k = tuple(sorted(m + n)); q[k] = q.get(k, 0) + c * d
        t = frompoly({k: c for k, c in q.items() if c})
    raise Undecided('denominators')

def isw(t): return t.op == 'var' and t.args[0].startswith('w')
def isa(t): return t.op == 'var' and t.args[0].startswith('a')
def haswire(t): return any(isw(y) for y in t.fv)

class Box:
    """everything that is specialised together"""
    def __init__(s, acc, spec, pairs, eqs=(), nes=(), log=()):
        s.acc, s.spec, s.pairs, s.eqs, s.nes, s.log = acc, spec, pairs, eqs, nes, log
    def vals(s):
        yield s.acc; yield s.spec
        for a, b in s.pairs: yield a; yield b
    def map(s, f, **kw):
        b = Box(f(s.acc), f(s.spec), [(f(x), f(y)) for x, y in s.pairs], s.eqs, s.nes, s.log)
        for k, v in kw.items(): setattr(b, k, v)
        return b
    def sub(s, m, note):
        b = s.map(lambda x: subst(x, m))
        b.eqs = [subst(x, m) for x in s.eqs]; b.nes = [subst(x, m) for x in s.nes]
        b.log = s.log + (note,)
        for x in b.nes:
            if isinstance(x, T) and not cpoly(x): return None          # contradicts a nonzero fact
        if any(isinstance(x, T) and set(cpoly(x)) == {()} for x in b.eqs): return None
        return b

def atoms(x, out):
    seen = set()
    def go(x):
        if isinstance(x, Ite) and x.id not in seen:
            seen.add(x.id); out.add(x.at); go(x.hi); go(x.lo)
    go(x)

def linear(p, w):
    """p = c*w + r, or None"""
    c, r = {}, {}
    for m, k in p.items():
        n = m.count(w.v)
        if n == 0: r[m] = k
        elif n == 1:
            l = list(m); l.remove(w.v); c[tuple(l)] = k
        else: return None
    # w must not hide in an opaque atom
    for q in (c, r):
        for m in q:
            for a in m:
                if w in TM._TT[a].fv: return None
    return c, r

def ne_known(b, c):
    """c (poly) is a nonzero constant or product of known nonzero factors"""
    if set(c) == {()}: return True
    t = frompoly(c)
    k = eq0(t)
    if not isinstance(k, Ite): return k is FALSE
    for x in b.nes:
        y = eq0(x)
        if isinstance(y, Ite) and y.at is k.at: return True
    if len(c) == 1:
        m = next(iter(c))
        return len(m) > 1 and all(ne_known(b, {(a,): 1}) for a in m)
    return False

def simplify(b):
    """use nonzero facts on the atoms of the box"""
    def f(at):
        if at.kind != 'EQ0': return None
        t = at.data
        p = cpoly(t)
        if not p: return TRUE
        if set(p) == {()}: return FALSE
        # common monomial factor
        ms = list(p)
        common = list(ms[0])
        for m in ms[1:]:
            l = list(m); common = [a for a in common if a in l and not l.remove(a)]
        if common:
            q = {}
            for m, c in p.items():
                l = list(m)
                for a in common: l.remove(a)
                q[tuple(l)] = c
            r = eq0(frompoly(q))
            for a in set(common):
                if not ne_known(b, {(a,): 1}): r = bor(eq0(TM._TT[a]), r)
            return r
        if ne_known(b, p): return FALSE
        return eq0(frompoly(p))
    for _ in range(4):
        n = b.map(lambda x: mapatoms(x, f))
        if all(x is y for x, y in zip(n.vals(), b.vals())): break
        b = n
    return b

def split(b, at):
    """specialise on an atom: list of boxes"""
    out = []
    if at.kind != 'EQ0':
        for v in (True, False):
            n = b.map(lambda x: cofactor(x, at, v)); n.log = b.log + ('%s%s' % ('' if v else 'not ', show_at(at, 3)),)
            out.append(n)
        return out
    t = at.data
    p = cpoly(t)
    # false branch
    n = b.map(lambda x: cofactor(x, at, False)); n.nes = tuple(b.nes) + (frompoly(p),); n.log = b.log + ('%s != 0' % show(frompoly(p), 4),)
    out.append(n)
    # true branch: solve for a variable
    vs = sorted((x for x in t.fv if isw(x) or isa(x)), key=lambda x: (not isw(x), x.args[0]))
    for w in vs:
        l = linear(p, w)
        if l is None: continue
        c, r = l
        if not c: continue
        if ne_known(b, c):
            sol = mul(neg(frompoly(r)), inv(frompoly(c)))
            n = b.sub({w: sol}, '%s = %s' % (show(w), show(sol, 4)))
            if n is not None: out.append(n)
            return out
    # split on a coefficient first
    for w in vs:
        l = linear(p, w)
        if l is None or not l[0]: continue
        e = eq0(frompoly(l[0]))
        if isinstance(e, Ite) and e.at is not at: return split(b, e.at)
    n = b.map(lambda x: cofactor(x, at, True)); n.eqs = tuple(b.eqs) + (frompoly(p),); n.log = b.log + ('%s = 0' % show(frompoly(p), 4),)
    out.append(n)
    return out

def explore(b, leaf, depth=0):
    if depth > 60: raise Undecided('depth')
    b = simplify(b)
    if b.acc is FALSE: return
    ats = set()
    for x in b.vals(): atoms(x, ats)
    if not ats: leaf(b); return
    def rank(a):
        w = any(isw(y) for y in a.fv)
        forced = cofactor(b.acc, a, False) is FALSE
        # forced equations first (they eliminate wires), wire-free tests next
        return (0 if forced and a.kind == 'EQ0' and w else 1 if not w else 2, a.idx)
    ats = sorted(ats, key=rank)
    for n in split(b, ats[0]): explore(n, leaf, depth + 1)

def hints(p, S, W):
    """wire variables -> honest values"""
    m = {}
    for w, g, pres, kind in p.wires:
        h = w.args[2]
        h = cofactor(subst(subst(h, p.wv, True), p.av, True), W, True)
        m[p.wv[w]] = subst(h, m) if m else h
    return m

def argterms(e, body):
    return [sp('arg%d' % i) for i in range(len(body['params']))]

def gadget(pr):
    """soundness and completeness of one primitive operator against its contract"""
    import pairs
    lay = {k: v for k, v in contracts.PRIM.items() if k not in pr.drop}
    ea, S = pairs.run(pr.s, lay, pr.extra)
    if ea.unknown: return {'res': 'unsup', 'why': 'unmodelled calls ' + ', '.join(sorted(ea.unknown))[:200]}
    eb, R = pairs.run(pr.s, contracts.G, pr.extra)
    W = ea.W.at
    args = [sp('arg%d' % i) for i in range(6)]
    p = setup(S, args)
    care = TRUE
    if pr.care: care = bnot(eq0(p.av[sp(pr.care)]))
    bad = []
    vs, vr = [], []
    scalars(S.ret, vs); scalars(R.ret, vr)
    for i in S.outs: scalars(S.outs[i], vs)
    for i in R.outs: scalars(R.outs[i], vr)
    if len(vs) != len(vr): raise Undecided('result shapes')
    R0 = lambda x: cofactor(x, W, False)
    acc = band(ren(p, conj(S, W, False)), care)
    spec = ren(p, conj(R, W, False))
    prs = [(ren(p, R0(x)), ren(p, y) if not pr.bit else ren(p, R0(x))) for x, y in zip(vs, vr)]
    # public inputs: guard-indexed lists
    ins = [(ren(p, g), p.wv[pl[0]]) for g, k, pl in flat(S.eff) if k == 'input']
    pubs = [(ren(p, g), ren(p, pl[0])) for g, k, pl in flat(R.eff) if k == 'public']
    n0 = len(prs)
    prs += [(g, v) for g, v in ins]
    n1 = len(prs)
    prs += [(g, v) for g, v in pubs]
    def leaf(b):
        where = '; '.join(b.log)
        if b.spec is not TRUE:
            if b.eqs: raise Undecided('unsolved equations ' + where)
            bad.append('the constraints accept values the gadget must reject, when ' + where); return
        for i, (x, y) in enumerate(b.pairs[:n0]):
            if pr.bit:
                d = mul(x, sub(x, ONE))
                if cpoly(d) and not (len(b.eqs) and any(frompoly(cpoly(d)).v == e.v for e in b.eqs)):
                    bad.append('the constraints admit a value other than 0 and 1 for the boolean %s, when %s' % (show(x, 5), where)); return
                continue
            if x is UNDEF and y is UNDEF: continue
            d = sub(x, y)
            if cpoly(d):
                if b.eqs: raise Undecided('unsolved equations ' + where)
                bad.append('the constraints admit the result %s where %s is required, when %s' % (show(x, 5), show(y, 5), where)); return
        a = [v for g, v in b.pairs[n0:n1] if g is TRUE]
        r = [v for g, v in b.pairs[n1:] if g is TRUE]
        if len(a) != len(r): bad.append('%d public inputs added where %d are required, when %s' % (len(a), len(r), where)); return
        for x, y in zip(a, r):
            if cpoly(sub(x, y)): bad.append('public input %s is not bound to %s, when %s' % (show(x, 5), show(y, 5), where)); return
    explore(Box(acc, spec, prs), leaf)
    # completeness: the honest witness satisfies everything
    h = hints(p, S, W)
    acc1 = subst(ren(p, conj(S, W, True)), h) if h else ren(p, conj(S, W, True))
    for w, g, pres, kind in p.wires:
        acc1 = band(acc1, bor(bnot(cofactor(ren(p, g), W, True)), cofactor(ren(p, pres), W, True)))
    spec1 = band(ren(p, conj(R, W, True)), care)
    def leaf2(b): bad.append('an honest witness is rejected (or missing), when ' + '; '.join(b.log))
    explore(Box(band(spec1, bnot(acc1)), TRUE, []), leaf2)
    # the value seen by get_value is the value constrained
    if pr.bit:
        res = [subst(ren(p, cofactor(x, W, True)), h) for x in vs]
        want = [ren(p, pr.want(W))] if pr.want else []
        def leaf3(b):
            for x, y in b.pairs:
                if cpoly(sub(x, y)): bad.append('the witness %s is not the requested boolean, when %s' % (show(x, 5), '; '.join(b.log)))
        if want: explore(Box(TRUE, TRUE, list(zip(res, want))), leaf3)
    # views: constness of the result
    kk, kr = [], []
    consts(S.ret, kk); consts(R.ret, kr)
    for i in S.outs: consts(S.outs[i], kk)
    for i in R.outs: consts(R.outs[i], kr)
    out = {'functions': sorted(x for x in ea.analysed if not x.startswith('harness')), 'calls': ea.ncalls, 'effects': len(S.eff)}
    if bad: return dict(out, res='diff', what='%s: %s' % (pr.name, bad[0]), report='\n'.join(bad))
    return other_circuit(pr, None) or dict(out, res='eq')

def other_circuit(pr, inst):
    """the circuit emitted while witness values are known must be the one judged above; a violation if it is a different one"""
    import copy, shape, pairs
    q = copy.copy(pr)
    if pr.kind == 'elim.gadget': q.layer = 'prim'
    q.generic, q.ignore = False, ()
    try: r = shape.shape(q, inst)
    except (pairs.Unsup, Undecided): return None
    return r if r['res'] == 'diff' else None
def consts(v, out):
    if isinstance(v, Agg):
        if v.tag == 'CNum': out.append(v.fs[1]); return
        for f in v.fs: consts(f, out)

def pieces(x, y, out):
    """matching scalar components of two values; False if their shapes cannot be matched"""
    if x is y or (isinstance(x, V) and isinstance(y, V) and x.v == y.v): return True
    if isinstance(x, (T, Ite)) and isinstance(y, (T, Ite)): out.append((x, y)); return True
    if isinstance(x, Agg) and isinstance(y, Agg) and len(x.fs) == len(y.fs): return all(pieces(a, b, out) for a, b in zip(x.fs, y.fs))
    if isinstance(x, En) and isinstance(y, En) and set(x.pay) == set(y.pay):
        out.append((x.disc, y.disc))
        return all(pieces(a, b, out) for k in x.pay for a, b in zip(x.canpay(k), y.canpay(k)))
    return False

def really_differ(x, y, cap=400):
    """x and y differ at some point no equation among their tests excludes (True when this cannot be refuted)"""
    ps = []
    if not pieces(x, y, ps): return True
    for a, b in ps:
        ats = set(); atoms(a, ats); atoms(b, ats)
        leaves = {}
        for at in ats:
            if at.kind != 'EQ0': continue
            for m in poly(at.data):
                for v in m:
                    t = TM._TT[v]
                    if t.op in ('sp', 'app') and not t.fv: leaves[t] = None
        mp = {t: var('a') for t in leaves}
        ra, rb = (subst(a, mp, True), subst(b, mp, True)) if mp else (a, b)
        n = [0]
        class Found(Exception): pass
        def leaf(bx):
            n[0] += 1
            if n[0] > cap: raise Found()
            (u, w), = bx.pairs
            if u.v == w.v: return
            if u is UNDEF or w is UNDEF or not isinstance(u, T) or not isinstance(w, T): raise Found()
            if u in (TRUE, FALSE) or w in (TRUE, FALSE) or cpoly(sub(u, w)): raise Found()
        try: explore(Box(TRUE, TRUE, [(ra, rb)]), leaf)
        except (Found, Undecided): return True
    return False
