"""Type-checked program database (THIR dump written by the rustc driver)."""
import json, re, os

class DB:
    def __init__(self):
        self.bodies = {}
        self.adts = {}
        self.impls = []
        self.impl_by_tr = {}
        self.inherent = {}
        self.crates = []
        self.layouts = []
        self.by_pretty = {}
    def load(self, path):
        d = json.load(open(path))
        cr = d['crate']
        self.crates.append(cr)
        tys = []
        raw = d['types']
        memo = {}
        def ty(i):
            if i == -1 or i is None: return ('o', 'unknown')
            if i in memo: return memo[i]
            t = raw[i]
            k = t['k']
            memo[i] = ('o', 'rec')
            if k == 'p': r = ('p', t['n'])
            elif k == 'adt': r = ('adt', t['d'], tuple(ty(a) for a in t['a']))
            elif k == 'ref': r = ('ref', ty(t['t']), t['m'])
            elif k == 'ptr': r = ('ptr', ty(t['t']))
            elif k == 'slice': r = ('slice', ty(t['t']))
            elif k == 'array': r = ('array', ty(t['t']), t['n'])
            elif k == 'tup': r = ('tup', tuple(ty(a) for a in t['a']))
            elif k == 'fndef': r = ('fndef', t['d'], t['p'], tuple(ty(a) for a in t['a']))
            elif k == 'closure': r = ('closure', t['d'], tuple(ty(a) for a in t['a']))
            elif k == 'par': r = ('par', t['n'])
            elif k == 'proj': r = ('proj', t['tr'], t['n'], tuple(ty(a) for a in t['a']))
            elif k == 'c': r = ('c', t['s'])
            elif k == 'fnptr': r = ('fnptr', t['s'])
            else: r = ('o', t.get('s', ''))
            memo[i] = r
            return r
        def fix(x):
            """replace type indices by type tuples in place"""
            if isinstance(x, dict):
                for key in ('ty', 'fty', 'ret'):
                    if key in x and isinstance(x[key], int): x[key] = ty(x[key])
                r = x.get('res')
                if isinstance(r, dict) and r.get('a') and isinstance(r['a'][0], int): r['a'] = tuple(ty(a) for a in r['a'])
                if x.get('k') in ('Const', 'ConstBlock') and 'a' in x: x['a'] = tuple(ty(a) if isinstance(a, int) else a for a in x['a'])
                for key, v in x.items():
                    if isinstance(v, (dict, list)) and key not in ('res', 'l') : fix(v)
                    elif key == 'l' and isinstance(v, dict): fix(v)
            elif isinstance(x, list):
                for v in x:
                    if isinstance(v, (dict, list)): fix(v)
        for b in d['bodies']:
            b['ga'] = tuple(ty(a) for a in b['ga'])
            fix(b)
            b['crate'] = cr
            self.bodies[b['id']] = b
            self.by_pretty.setdefault(strip_generics(b['p']), []).append(b)
        for a in d['adts']:
            for v in a['v']: v['f'] = [(f[0], ty(f[1]), f[2]) for f in v['f']]
            self.adts.setdefault(a['d'], a)
        for im in d['impls']:
            im['a'] = tuple(ty(a) for a in im['a'])
            im['fns'] = {n: i for k, n, i in im['items'] if k == 'fn'}
            im['types'] = {n: ty(i) for k, n, i in im['items'] if k == 'type'}
            im['consts'] = {n: i for k, n, i in im['items'] if k == 'const'}
            self.impls.append(im)
            if im['tr']: self.impl_by_tr.setdefault(im['tr'], []).append(im)
        self.layouts.append({ty(int(k)): v for k, v in (d.get('layouts') or {}).items()})
        return d

    def find_impl(self, tr, args):
        for im in self.impl_by_tr.get(tr, []):
            env = {}
            if len(im['a']) <= len(args) and all(unify(p, a, env) for p, a in zip(im['a'], args)):
                return im, env
        return None, None

def strip_generics(p):
    """std::option::Option::<T>::map -> std::option::Option::map"""
    out = []
    d = 0
    i = 0
    while i < len(p):
        if p.startswith('::<', i) and d == 0 and not p.startswith('::<impl', i):
            # skip generic args
            j = i + 3; dd = 1
            while dd:
                if p[j] == '<': dd += 1
                elif p[j] == '>' and p[j-1] != '-': dd -= 1
                j += 1
            i = j
            continue
        out.append(p[i]); i += 1
    return ''.join(out)

def unify(p, t, env):
    if p[0] == 'par':
        if p[1] in env: return env[p[1]] == t
        env[p[1]] = t
        return True
    if p[0] == 'proj': return True
    if p[0] != t[0]: return False
    k = p[0]
    if k == 'p' or k == 'c' or k == 'o' or k == 'fnptr': return p == t
    if k == 'adt': return p[1] == t[1] and len(p[2]) == len(t[2]) and all(unify(a, b, env) for a, b in zip(p[2], t[2]))
    if k == 'ref': return p[2] == t[2] and unify(p[1], t[1], env)
    if k in ('ptr', 'slice'): return unify(p[1], t[1], env)
    if k == 'array':
        if p[2] != t[2]:
            if not str(p[2]).isdigit(): env.setdefault(p[2], ('c', t[2]))
            else: return False
        return unify(p[1], t[1], env)
    if k == 'tup': return len(p[1]) == len(t[1]) and all(unify(a, b, env) for a, b in zip(p[1], t[1]))
    return p == t
