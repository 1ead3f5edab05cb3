"""Built-in curve parameters: constant evaluation of the type-checked definitions, then exact number theory."""
import hashlib
import pairs
from terms import *
from engine import Engine, Unsup
R = {'bn': 21888242871839275222246405745257275088548364400416034343698204186575808495617,
     'bls': 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001}
MOD = {'bn': 'bn256', 'bls': 'bls12_381'}
def ev(t, p):
    """value of a constant term modulo p"""
    memo = {}
    def go(x):
        if isinstance(x, Agg) and len(x.fs) == 1: return go(x.fs[0])
        if not isinstance(x, T): raise Unsup('not a constant expression: %s' % show(x, 3)[:80])
        if x in memo: return memo[x]
        if x.op == 'const': r = x.args[0] % p
        elif x.op == 'add': r = (go(x.args[0]) + go(x.args[1])) % p
        elif x.op == 'mul': r = go(x.args[0]) * go(x.args[1]) % p
        elif x.op == 'inv':
            r = go(x.args[0])
            if r == 0: raise ZeroDivisionError('inverse of zero')
            r = pow(r, -1, p)
        else: raise Unsup('not a constant expression: %s' % show(x, 3)[:80])
        memo[x] = r
        return r
    return go(t)
def prime(n):
    if n < 2: return False
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43):
        if n % q == 0: return n == q
    d, s = n - 1, 0
    while d % 2 == 0: d //= 2; s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107):
        x = pow(a, d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True
def square(a, p): return a % p == 0 or pow(a, (p - 1) // 2, p) == 1
def sqrt(a, p):
    a %= p
    if a == 0: return 0
    if pow(a, (p - 1) // 2, p) != 1: return None
    q, s = p - 1, 0
    while q % 2 == 0: q //= 2; s += 1
    z = 2
    while pow(z, (p - 1) // 2, p) != p - 1: z += 1
    m, c, t, r = s, pow(z, q, p), pow(a, q, p), pow(a, (q + 1) // 2, p)
    while t != 1:
        i, x = 0, t
        while x != 1: x = x * x % p; i += 1
        b = pow(c, 1 << (m - i - 1), p)
        m, c, t, r = i, b * b % p, t * b * b % p, r * b % p
    return r
class Edwards:
    """-x^2 + y^2 = 1 + d x^2 y^2"""
    def __init__(s, d, p): s.d, s.p = d, p
    def on(s, P): x, y = P; return (y * y - x * x - 1 - s.d * x * x % s.p * y * y) % s.p == 0
    def add(s, P, Q):
        p = s.p; (a, b), (c, e) = P, Q
        k = s.d * a % p * b % p * c % p * e % p
        return ((a * e + b * c) * pow(1 + k, -1, p) % p, (b * e + a * c) * pow(1 - k, -1, p) % p)
    def mul(s, n, P):
        r = (0, 1)
        while n:
            if n & 1: r = s.add(r, P)
            P = s.add(P, P); n >>= 1
        return r
    def point(s, y):
        p = s.p
        while True:
            x = sqrt((y * y - 1) * pow(s.d * y * y + 1, -1, p), p)
            if x: return (x, y)
            y += 1
def limbs(db, path):
    b = db.bodies.get(path)
    if b is None: raise Unsup('no ' + path)
    v = Engine(db, 'sem', {}).run(b, {}).ret
    while isinstance(v, Agg): v = v.fs[0]
    return sum(intconst(x) << (64 * i) for i, x in enumerate(v.els()))
def K(c, n): return pairs.run('param::%s::%s' % (c, n))[1].ret
def curve_constants(db):
    n, bad, und = 0, [], []
    for c in ('bn', 'bls'):
        r = R[c]
        name = 'native::' + MOD[c]
        def need(ok, what):
            nonlocal n
            n += 1
            if not ok: bad.append((name, '%s: %s' % (name, what)))
        try:
            ks = [pairs.run('param::%s::k_%s' % (c, k))[1] for k in 'dabu']
            if any(x.pan is TRUE for x in ks): bad.append((name, name + ': the curve constants cannot be computed (panic, for example division by zero)')); n += 1; continue
            d, a, b, u = (ev(x.ret, r) for x in ks)
            l = limbs(db, 'fawkes_crypto::%s::MODULUS' % name)
        except Unsup as x: und.append((name, str(x)[:200])); continue
        except ZeroDivisionError: bad.append((name, name + ': a curve constant divides by zero')); n += 1; continue
        need(not square(d, r), 'edwards_d is a square modulo the field order: the addition law is not complete')
        need(d not in (0, r - 1), 'edwards_d is degenerate')
        if d in (0, r - 1): continue
        need(a == 2 * (1 - d) * pow(1 + d, -1, r) % r, 'montgomery_a is not 2(1-d)/(1+d): the Montgomery form is another curve')
        need(b == -4 * pow(1 + d, -1, r) % r, 'montgomery_b is not -4/(1+d): the Montgomery form is another curve')
        need(not square(u, r), 'montgomery_u is a square: the map to the curve has no root for half of the inputs')
        need(prime(l), 'the order of the scalar field Fs is not prime')
        if square(d, r): continue
        E = Edwards(d, r)
        ps = [E.point(y) for y in (2, 1000, 31337)]
        need(all(E.mul(8 * l, P) == (0, 1) for P in ps), 'the curve has points whose order does not divide 8 * |Fs|: cofactor 8 and Fs do not match edwards_d')
        # a point of order l together with Hasse's bound fixes the group order
        need(any(E.mul(8, P) != (0, 1) for P in ps) and (8 * l - r - 1) ** 2 <= 4 * r and l > 4 * (int(r ** 0.5) + 1) // 8, 'group order 8 * |Fs| outside the range of curve orders')
        try:
            g = limbs(db, 'fawkes_crypto::%s::GENERATOR' % name) * pow(1 << 256, -1, l) % l
            need(not square(g, l), 'the declared generator of Fs is a square')
        except (Unsup, TypeError): und.append((name + ' generator of Fs', 'not a constant'))
        try:
            G = K(c, 's_g')
            try: gx, gy = (ev(x, r) for x in G.fs)
            except Unsup:
                seed = bytes(intconst(x) for x in K(c, 'k_seed').els())
                t = int.from_bytes(hashlib.blake2s(seed, digest_size=32, person=b'__fawkes').digest(), 'big') % r
                t = (t + 1) % r
                z = t * t * u % r
                f = lambda x: (x * x * (x + a) + x) * pow(b, -1, r) % r
                x2 = -pow(a, -1, r) * (1 + pow(z, -1, r)) % r
                mx = x2 if square(f(x2), r) else x2 * z % r
                my = sqrt(f(mx), r)
                if my is None: need(False, 'the generator seed has no curve point'); continue
                if my & 1: my = r - my
                gx, gy = E.mul(8, (mx * pow(my, -1, r) % r, (mx - 1) * pow(mx + 1, -1, r) % r))
            need(E.on((gx, gy)), 'the generator is not on the curve')
            need((gx, gy) != (0, 1) and E.mul(l, (gx, gy)) == (0, 1), 'the generator does not have the order of Fs')
        except Unsup as x: und.append((name + ' generator', str(x)[:200]))
    return n, bad, und
