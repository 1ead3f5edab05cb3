"""Type-check /repo (through the harness crate) with the THIR-dumping compiler driver."""
import os, re, json, subprocess, sys, fcntl, glob, shutil, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, '.build')
DRV = os.path.join(B, 'driver', 'debug', 'thirdump')
OUT = os.path.join(B, 'out')

class DumpError(Exception): pass

def sh(cmd, cwd, env=None):
    e = dict(os.environ)
    e['PATH'] = '/root/.cargo/bin:/usr/local/cargo/bin:' + e.get('PATH', '')
    e.setdefault('HOME', '/root')
    for k in ('RUSTFLAGS', 'RUSTUP_TOOLCHAIN', 'RUSTC', 'CARGO_BUILD_TARGET', 'RUSTC_WRAPPER'): e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout

def build_driver():
    os.makedirs(B, exist_ok=True)
    rc, o = sh(['cargo', '+nightly', 'build', '--offline', '--target-dir', os.path.join(B, 'driver')], os.path.join(V, 'driver'))
    if rc: raise DumpError('driver does not build:\n' + o[-3000:])

def sysroot():
    rc, o = sh(['rustc', '+nightly', '--print', 'sysroot'], V)
    return o.strip()

def treehash():
    h = hashlib.sha256()
    for root in ('/repo', os.path.join(V, 'harness'), os.path.join(V, 'driver')):
        for d, ds, fs in sorted(os.walk(root)):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git'))
            for f in sorted(fs):
                p = os.path.join(d, f)
                if os.path.islink(p) or not os.path.isfile(p): continue
                h.update(p.encode() + b'\0'); h.update(open(p, 'rb').read() + b'\0')
    return h.hexdigest()

ITEM = re.compile(r'^\s*(#\[|pub (const )?fn |fn |impl|pub struct |struct |pub mod |mod |macro_rules!|[a-z_0-9]+! *[{(]|pub const |const |pub static |static )')
def enclosing(lines, n):
    """innermost item (first line, last line) containing line n (0-based)"""
    best = None
    for i in range(n, -1, -1):
        if not ITEM.match(lines[i]) or lines[i].lstrip().startswith('#['): continue
        d, seen = 0, False
        for j in range(i, len(lines)):
            t = re.sub(r"'.'|\"(\\\\.|[^\"])*\"|//.*", '', lines[j])
            for ch in t:
                if ch in '{(': d += 1; seen = seen or ch == '{'
                elif ch in '})': d -= 1
                if d == 0 and (ch == '}' and seen or ch == ';'): break
            else: continue
            break
        if j >= n: best = (i, j); break
    return best
def check(hdir, env):
    """type-check the harness; entries whose interface /repo no longer has are left out (they become undecided)"""
    cut, work = [], hdir
    for rnd in range(8):
        rc, o = sh(['cargo', '+nightly', 'check', '--offline', '--lib', '--message-format=json-diagnostic-short'], work, env)
        if not rc and all(os.path.exists(os.path.join(OUT, x + '.json')) for x in ('fawkes_crypto', 'harness')): return cut
        bad = {}
        for l in o.splitlines():
            if not l.startswith('{'): continue
            try: m = json.loads(l)
            except ValueError: continue
            if m.get('reason') != 'compiler-message' or m['message']['level'] != 'error' or m['target']['name'] != 'harness': continue
            for sp in m['message']['spans']:
                if sp['is_primary']:
                    while sp:
                        if sp['file_name'].startswith('src/'): bad.setdefault(sp['file_name'], set()).add(sp['line_start'] - 1)
                        x = sp.get('expansion')
                        sp = x and x['span']
        if not bad: raise DumpError('the tree does not type-check:\n' + '\n'.join(x for x in o.splitlines() if not x.startswith('{'))[-4000:])
        if work == hdir:
            work = os.path.join(B, 'harness_cut')
            shutil.rmtree(work, ignore_errors=True)
            shutil.copytree(hdir, work)
        for fn, ns in bad.items():
            p = os.path.join(work, fn)
            lines = open(p).read().split('\n')
            gone = False
            for n in sorted(ns, reverse=True):
                if n >= len(lines): continue
                e = enclosing(lines, n) if rnd < 5 else (0, len(lines) - 1)
                if e is None: e = (n, n)
                cut.append('%s: %s' % (fn, lines[e[0]].strip()[:80]))
                for i in range(e[0], e[1] + 1): lines[i] = ''
            open(p, 'w').write('\n'.join(lines))
    raise DumpError('the harness does not type-check')

def dump():
    """dump of the current tree; identical sources are not type-checked twice"""
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = treehash()
        stamp = os.path.join(OUT, 'key')
        if os.path.exists(stamp) and open(stamp).read() == key: return OUT
        build_driver()
        shutil.rmtree(OUT, ignore_errors=True)
        os.makedirs(OUT)
        tgt = os.path.join(B, 'target')
        for g in glob.glob(os.path.join(tgt, 'debug', '.fingerprint', '*')) + glob.glob(os.path.join(tgt, 'debug', 'build', '*')):
            if os.path.basename(g).startswith(('fawkes-crypto', 'harness')): shutil.rmtree(g, ignore_errors=True)
        env = {'LD_LIBRARY_PATH': sysroot() + '/lib', 'THIRDUMP_CRATES': 'fawkes_crypto,harness', 'THIRDUMP_OUT': OUT,
               'RUSTC_WRAPPER': DRV, 'CARGO_TARGET_DIR': tgt, 'RUSTFLAGS': '--cap-lints=allow', 'CARGO_PROFILE_DEV_DEBUG_ASSERTIONS': 'false'}
        cut = check(os.path.join(V, 'harness'), env)
        with open(os.path.join(OUT, 'cut'), 'w') as f: f.write('\n'.join(cut))
        open(stamp, 'w').write(key)
        return OUT

if __name__ == '__main__':
    print(dump())
