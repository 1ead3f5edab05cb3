import sys, time, traceback
from engine import *
from compare import *
import contracts
import ints
LAYERS = {'sem': contracts.G, 'prim': contracts.PRIM, 'none': {}}
_db = [None]
def db():
    if _db[0] is None:
        d = DB()
        for c in ('fawkes_crypto', 'harness'): d.load('/verif/.build/out/%s.json' % c)
        _db[0] = d
    return _db[0]
def find(path):
    if path.startswith('@'):
        import re
        bs = [b for b in db().bodies.values() if re.search(path[1:] + '$', b['p'])]
        return bs[0] if len(bs) == 1 else None
    return db().bodies.get('harness::' + path)
def mirrored(a, b):
    """do the type and its harness mirror have the same fields in the same order?"""
    x, y = db().adts.get(a if a.startswith('harness::') else 'fawkes_crypto::' + a), db().adts.get('harness::' + b)
    return bool(x and y) and [[f[0] for f in v['f']] for v in x['v']] == [[f[0] for f in v['f']] for v in y['v']]
def iterm(name):
    """'arg1.f2.len' -> term of a size"""
    if name == 'nbits': return mul(const(64), app('nlimbs', sp('repr:' + 'F::Repr')))
    if name.startswith('nlimbs:'): return app('nlimbs', sp('repr:' + name[7:] + '::Repr'))
    if name.startswith('NUM_BITS:'): return sp('const:NUM_BITS(%s)' % name[9:])
    if name.startswith('arg'):
        ps = name.split('.')
        t = sp(ps[0])
        for p in ps[1:]:
            if p == 'len': t = rawapp('len', t)
            elif p[0] == 'i': t = rawapp('get', t, const(int(p[1:])))
            else: t = rawapp('fld', t, int(p[1:]))
        return t
    return sp(name)
def ival(v):
    if isinstance(v, int): return v
    n, k = v.rsplit('+', 1)
    return add(iterm(n), const(int(k)))
def run(path, layer='sem', extra=None, inst=None, unroll=0, mode='sem'):
    b = find(path)
    if b is None: raise Unsup('no harness entry ' + path)
    c = dict(LAYERS[layer] if isinstance(layer, str) else layer)
    c.update(extra or {})
    e = Engine(db(), mode, c, inst={iterm(k): ival(v) for k, v in inst.items()} if inst else None, unroll=unroll)
    return e, e.run(b, {})
def compare(s, r, layer='sem', extra=None, inst=None, unroll=0):
    ea, A = run(s, layer, extra, inst, unroll); A = canon(A)
    eb, B = run(r, layer, extra, inst, unroll); B = canon(B)
    return ea, eb, diff(A, B)
def compare_generic(s, r, layer='sem', extra=None, inst=None, unroll=0):
    ea, A = run(s, layer, extra, inst, unroll)
    eb, B = run(r, layer, extra, inst, unroll)
    return ea, eb, generic_diff(A, B)
def vocab(parts):
    out = set()
    for x in parts.values():
        for y in (x if isinstance(x, list) else [x]): atoms_of(y, out)
    return out
# external operations taken as uninterpreted but different from each other
DISTINCT = {'EncodedPoint::into_affine_unchecked', 'EncodedPoint::into_affine', 'CurveAffine::into_uncompressed', 'CurveAffine::into_compressed',
            'Write::write', 'Write::write_all', 'Read::read', 'Read::read_exact', 'Read::read_to_end'}
DISTINCT |= {'SeedableRng::from_seed', 'SeedableRng::reseed', 'rand::thread_rng', 'rand::weak_rng', 'StdRng::new', 'rand::random', 'XorShiftRng::new_unseeded', 'ChaChaRng::new_unseeded', 'IsaacRng::new_unseeded', 'Isaac64Rng::new_unseeded', 'JitterRng::new', 'Rand::rand', 'Rng::gen'}
DISTINCT |= {'JubJubParams::edwards_g'}      # a point no identity ties to the other parameters
DISTINCT |= {'PrimeFieldRepr::' + x for x in ('write_be', 'write_le', 'read_be', 'read_le')}
def rounds(inst):
    ns = [x for x in inst.values() if isinstance(x, int)] if inst else []
    return max(64, 2 * max(ns)) if ns else 0
def fails_at(S, pb):
    """is a division by zero certain when the arguments are these?"""
    m = {iterm(k): const(v) if isinstance(v, int) else neg(iterm(v[1:])) if v[0] == '-' else iterm(v) for k, v in pb.items()}
    if subst(S.pan, m, True) is TRUE: return True
    def go(eff):
        for g, kind, pl in eff:
            if kind == 'div' and isinstance(subst(pl[0], m, True), T) and subst(pl[0], m, True).v == ZERO.v and subst(g, m, True) is TRUE: return True
        return False
    return go(S.eff)
def decide(pr, inst=None):
    """compare one subject with its reference; plain-data result"""
    u = rounds(inst)
    for a, b in pr.mirror:
        if a == 'fn':
            if find(b) is None: raise Unsup('no function ' + b)
            continue
        if not mirrored(a, b): raise Unsup('representation of %s changed' % a)
    lay = LAYERS[pr.layer] if isinstance(pr.layer, str) else pr.layer
    lay = {k: v for k, v in lay.items() if k not in pr.drop}
    try: ea, A = run(pr.s, lay, pr.extra, inst, u, pr.mode)
    except Diverges:
        try: ea, A = run(pr.s, lay, pr.extra, inst, 1024, pr.mode)
        except Diverges:
            run(pr.r, lay, pr.extra, inst, u, pr.mode)
            what = '%s does not end: after 1024 rounds of a loop no way out has been reached' % pr.name
            return {'functions': [], 'calls': 0, 'effects': 0, 'res': 'diff', 'what': what, 'report': what}
    eb, B = run(pr.r, lay, pr.extra, inst, u, pr.mode)
    meta = {'functions': sorted(x for x in ea.analysed if not x.startswith('harness')), 'calls': ea.ncalls, 'effects': len(A.eff)}
    CA, CB = canon(A), canon(B)
    d = generic_diff(A, B) if pr.generic else diff(CA, CB, pr.ignore)
    if d:
        import elim
        d = [(k, x, y) for k, x, y in d if k == 'allocations' or x is None or y is None or elim.really_differ(x, y)]
    if not d:
        for pb in pr.probes:
            if fails_at(A, pb) and not fails_at(B, pb):
                what = '%s divides by zero where its reference does not: at %s' % (pr.name, ', '.join('%s = %s' % x for x in pb.items()))
                return dict(meta, res='diff', what=what, report=what)
        return dict(meta, res='eq')
    old = {x.split('/')[0] for x in vocab(CB.parts) if isinstance(x, str)} | eb.unknown
    used = {x.split('/')[0] for x in eb.unknown if not x.endswith('::new')}
    def unfamiliar(xs):
        xs = {x for x in xs if not (x.startswith('ext:') and ('/' in x and x.split('/')[0] in old or x[4:].split('/')[0] in used))}      # the same operation at another type, or one the reference applies too
        return {x for x in xs if (x[4:] if x.startswith('ext:') else x).split('/')[0] not in DISTINCT | pr.distinct}
    def words(x): return {y for y in vocab({'': x}) - vocab(CB.parts) if isinstance(y, str) and (y.startswith('ext:') or y == 'opq' or y == 'ref')} if x is not None else set()
    if pr.generic: new = unfamiliar({y for k, x, _ in d for y in words(x)} | (ea.unknown - eb.unknown))
    else:
        new = unfamiliar(ea.impure - eb.unknown)
        per = {k: unfamiliar(words(x)) for k, x, _ in d}
        if not new and any(per.values()):
            if all(per.values()): new = set().union(*per.values())
            else: d = [z for z in d if not per[z[0]]]
    if new: return dict(meta, res='unsup', why='outside the modelled vocabulary: ' + ', '.join(sorted(new))[:200])
    rep = []
    for k, x, y in d:
        rep.append('%s differs from the reference' % k)
        if x is not None and y is not None:
            x, y = firstdiff(x, y)
            rep.append('  code:      ' + show(x, 9)[:1500]); rep.append('  reference: ' + show(y, 9)[:1500])
    what = 'what %s computes differs from its reference in: %s' % (pr.name, ', '.join(k for k, _, _ in d))
    return dict(meta, res='diff', what=what, report=what + '\n' + '\n'.join(rep))
def override(pr, inst=None):
    """a provided trait method: either not overridden (the trait's own definition applies), or equal to one of the references"""
    import copy
    body = find(pr.s)
    ea, A = run(pr.s, pr.layer, pr.extra)
    if any((x[4:] if x.startswith('ext:') else x).split('/')[0] == pr.want for x in ea.unknown | {x for x in vocab(canon(A).parts) if isinstance(x, str)}):
        return dict(functions=[], calls=ea.ncalls, effects=len(A.eff), res='eq')
    last = None
    for r in pr.r.split('|'):
        q = copy.copy(pr); q.r = r
        last = decide(q)
        if last['res'] == 'eq': return last
    return last
def modpairs(mod):
    names = [b for b in db().bodies if b.startswith('harness::' + mod + '::') and '{' not in b]
    names = [n[9:] for n in names]
    out = []
    for n in names:
        m, f = n.rsplit('::', 1)
        if f.startswith('s_'):
            r = m + '::r_' + f[2:]
            if 'harness::' + r not in db().bodies and f.startswith('s_c_'): r = m + '::r_' + f[4:]
            if 'harness::' + r in db().bodies: out.append((n, r))
            else: print('no reference for', n)
    return out
if __name__ == '__main__':
    pat = sys.argv[1]
    inst = None
    for a in sys.argv[2:]:
        if '=' in a:
            inst = inst or {}
            k, v = a.rsplit('=', 1); inst[k] = int(v)
    mod = pat.split('::')[0]
    for s, r in modpairs(mod):
        if pat not in s: continue
        t = time.time()
        try:
            ea, eb, d = (compare_generic if '-g' in sys.argv else compare)(s, r, inst=inst, unroll=64 if inst else 0)
            print('EQ  ' if not d else 'DIFF', s, '%.1f' % (time.time() - t), ea.unknown or '', flush=True)
            for k, x, y in d:
                print('    ', k)
                if '-v' in sys.argv and x is not None and y is not None:
                    x, y = firstdiff(x, y); print('       A', show(x, 8)[:900]); print('       B', show(y, 8)[:900])
        except Unsup as x: print('UNSUP', s, str(x)[:300])
        except Exception as x:
            tb = traceback.extract_tb(x.__traceback__)[-1]
            print('EXC', s, repr(x)[:200], tb.filename.split('/')[-1], tb.lineno)
