"""Command-line bindings: file system and standard output as state, the library's own entry points as named functions."""
from terms import *
import terms as TM
from engine import *
from models import target
import engine as EN

FSLOC, OUTLOC = newloc(), newloc()
def fsput(fs, path, data):
    """the files written so far, by path (different path expressions name different files)"""
    def f(s):
        m = {}
        if s.op == 'app' and s.args[0] == 'fs':
            for i in range(1, len(s.args), 2): m[s.args[i].v] = (s.args[i], s.args[i + 1])
        m[path.v] = (path, data)
        return rawapp('fs', *[x for k in sorted(m) for x in m[k]])
    return lift(f, fs)
def fsget(fs, path):
    def f(s):
        if s.op == 'app' and s.args[0] == 'fs':
            for i in range(1, len(s.args), 2):
                if s.args[i].v == path.v: return s.args[i + 1]
        return rawapp('fs.read', path)
    return lift(f, fs)
def arg(c, i): return c.eng.deep(c.st, c.args[i])
def path(c, i):
    p = arg(c, i)
    while isinstance(p, Agg) and len(p.fs) == 1: p = p.fs[0]
    if not isinstance(p, T): raise Unsup('file name depends on a condition')
    return p
def blob(v):
    while isinstance(v, Agg) and len(v.fs) == 1: v = v.fs[0]
    if isinstance(v, Seq) and len(v.segs) == 1 and v.segs[0][0] == 'o':
        g = v.segs[0]
        if g[2] is rawapp('len', g[1]): return g[1]
    return opaque(v)
def fs(st): return st.store.setdefault(FSLOC, sp('nofiles'))
def _write(c):
    c.st.store[FSLOC] = fsput(fs(c.st), path(c, 0), blob(arg(c, 1)))
    return ok(UNIT)
def _read(c): return ok(c.eng.expand(fsget(fs(c.st), path(c, 0)), c.ret[2][0]) if c.ret and c.ret[0] == 'adt' else fsget(fs(c.st), path(c, 0)))
def _create(c):
    p = path(c, 0)
    c.st.store[FSLOC] = fsput(fs(c.st), p, sp('empty'))
    return ok(rawapp('file.w', p))
def _open(c): return ok(rawapp('file.r', fsget(fs(c.st), path(c, 0))))
def emit(c, i, data):
    """append data to the writer behind argument i (by value or by reference)"""
    w = c.args[i]
    t = c.argtys[i]
    byref = t is not None and t[0] == 'ref'
    pl = target(c, i) if byref else None
    v = c.eng.deep(c.st, c.eng.rd(c.st, pl)) if byref else arg(c, i)
    if isinstance(v, T) and v.op == 'app' and v.args[0] == 'file.w':
        f, p = fs(c.st), v.args[1]
        old = fsget(f, p)
        c.st.store[FSLOC] = fsput(f, p, data if old is sp('empty') else rawapp('cat', old, data))
        return UNIT
    if not byref: raise Unsup('writer %s %s' % (t, show(v, 3)[:100]))
    if isinstance(v, T) and v.op == 'app' and v.args[0] == 'cursor':
        old = v.args[1]
        c.eng.wr(c.st, pl, rawapp('cursor', data if old is sp('empty') else rawapp('cat', old, data)))
        return UNIT
    if isinstance(v, Seq):
        if v.segs: raise Unsup('writer')
        c.eng.wr(c.st, pl, Seq([('o', data, rawapp('len', data))], ('p', 'u8')))
        return UNIT
    raise Unsup('writer %s %s' % (t, show(v, 3)[:100]))
def _encode(nm):
    def f(c):
        emit(c, 1, rawapp(nm, opaque(arg(c, 0))))
        return ok(UNIT)
    return f
def _write_all(c): emit(c, 0, blob(arg(c, 1))); return ok(UNIT)
def _cursor(c):
    v = arg(c, 0)
    if not (isinstance(v, Seq) and not v.segs): return NotImplemented
    return rawapp('cursor', sp('empty'))
def _inner(c):
    v = arg(c, 0)
    if not (isinstance(v, T) and v.op == 'app' and v.args[0] == 'cursor'): return NotImplemented
    x = v.args[1]
    s = Seq([('o', x, rawapp('len', x))], ('p', 'u8')) if x is not sp('empty') else Seq([], ('p', 'u8'))
    if c.ret is not None and c.ret[0] == 'ref':
        l = newloc(); c.st.store[l] = s
        return mkref(l)
    return s
def pure(nm, res=False):
    def f(c):
        t = rawapp(nm, *[blob(arg(c, i)) for i in range(len(c.args))])
        return c.eng.expand(t, c.ret) if c.ret is not None else t
    return f
def _keys(c):
    h = c.st.store[OSLOC]
    c.st.store[OSLOC] = rawapp('os.next', h)
    return c.eng.expand(rawapp('keys', h), c.ret)
def _same(c): return arg(c, 0)
def _bytes(c):
    v = blob(arg(c, 0))
    return Seq([('o', v, rawapp('len', v))], ('p', 'u8'))
def _print(c):
    o = c.st.store.setdefault(OUTLOC, sp('quiet'))
    c.st.store[OUTLOC] = rawapp('print', o, opaque(arg(c, 0)))
    return UNIT
CLI = {'fs::write': _write, 'fs::read_to_string': _read, 'File::create': _create, 'File::open': _open, 'Write::write_all': _write_all,
       'Parameters::write': _encode('params.bytes'), 'Parameters::read': pure('params.read'),
       'TruncatedVerifyingKey::write': _encode('vk.bytes'), 'TruncatedVerifyingKey::read': pure('vk.read'),
       'TruncatedVerifyingKey::into_data': pure('vk.data'), 'TruncatedVerifyingKey::from_data': pure('vk.from'),
       'Proof::write': _encode('proof.bytes'), 'Proof::read': pure('proof.read'), 'Proof::into_data': pure('proof.data'), 'Proof::from_data': pure('proof.from'),
       'prover::generate_keys': _keys, 'prover::prove': pure('prove'), 'verifier::verify': pure('verify'),
       'verifier::truncate_verifying_key': pure('truncate'), 'ethereum::generate_sol_data': pure('solidity'),
       'core::cs::TestCS::new': pure('testcs'), 'TestCS::new': pure('testcs'), 'Cursor::new': _cursor, 'Cursor::get_ref': _inner, 'Cursor::into_inner': _inner,
       'String::into_bytes': _bytes, 'str::as_bytes': _bytes, 'String::as_bytes': _bytes, 'str::to_string': _same, 'io::_print': _print, 'stdio::_print': _print,
       'base64::encode': pure('b64'), 'encode::encode': pure('b64'), 'base64::decode': pure('unb64'), 'decode::decode': pure('unb64'),
       'serde_json::to_string_pretty': pure('json'), 'ser::to_string_pretty': pure('json'), 'serde_json::from_str': pure('unjson'), 'de::from_str': pure('unjson'),
       'BorshSerialize::try_to_vec': pure('borsh'), 'BorshDeserialize::try_from_slice': pure('unborsh')}
CLI['__world__'] = {'files written': FSLOC, 'standard output': OUTLOC}
for _m in ('wav', 'wavbn', 'bindings'): CLI[_m + '::read_num_vec'] = pure('nums.read'); CLI[_m + '::num_vec_to_buf'] = pure('nums.write')
CLI['Circuit::get_inputs'] = pure('inputs')
def unit(c): return UNIT
VALUES = {'ConstraintSystem::alloc': pure('index'), 'ConstraintSystem::alloc_input': pure('index'), 'ConstraintSystem::enforce': unit, 'TestCS::new': pure('testcs'), 'core::cs::TestCS::new': pure('testcs')}
# ---- fixed-size big-endian numbers, at an abstract size of N bytes
N = 2
def _size(c): return const(N) if c.targs and 'Repr' in str(c.targs[0]) else NotImplemented
def read(order):
    def f(c):
        """takes the first N bytes of the stream, fails when there are fewer"""
        e, st = c.eng, c.st
        if len(c.args) != 2: return NotImplemented
        rpl = target(c, 0)
        v = e.deep(st, c.args[1])
        if not isinstance(v, Seq): return NotImplemented
        t = c.argtys[1]
        if t is not None and t[0] == 'ref' and t[1][0] == 'ref' and t[1][1][0] == 'slice': raise Unsup('moving cursor')
        n = intconst(v.length)
        if n is None: raise Unsup('stream of symbolic length')
        if n < N:
            e.wr(st, rpl, sp('partial')); return err(ERR)
        e.wr(st, rpl, e.expand(rawapp('int.' + order, *[seq_get(v, const(i)) for i in range(N)]), c.argtys[0][1] if c.argtys[0] else None))
        return ok(UNIT)
    return f
def writer(order):
    def f(c):
        e, st = c.eng, c.st
        x = blob(e.deep(st, c.args[0]))
        out = [rawapp('byte.' + order, i, x) for i in range(N)]
        pl = target(c, 1)
        v = e.rd(st, pl)
        if not isinstance(v, Seq): return NotImplemented
        t = c.argtys[1]
        while t is not None and t[0] == 'ref': t = t[1]
        n = intconst(v.length)
        if n is None: raise Unsup('writer of symbolic length')
        if t is not None and t[0] == 'slice':
            if n < N: return err(ERR)
            for i in range(N): e.wr(st, e.ext(pl, ('i', const(i))), out[i])
        else: e.wr(st, pl, Seq(list(v.segs) + [('e', y) for y in out], ('p', 'u8')))
        return ok(UNIT)
    return f
CODE = {'mem::size_of': _size, 'PrimeFieldRepr::read_be': read('be'), 'PrimeFieldRepr::read_le': read('le'),
        'PrimeFieldRepr::write_be': writer('be'), 'PrimeFieldRepr::write_le': writer('le'), '__world__': {'files written': FSLOC}}

# ---- declared options: what one command writes by default is what the next one reads by default
import re
FLOW = [('SetupOpts.params', 'ProveOpts.params'), ('SetupOpts.vk', 'VerifyOpts.vk'), ('SetupOpts.vk', 'GenerateVerifierOpts.vk'),
        ('ProveOpts.proof', 'VerifyOpts.proof'), ('ProveOpts.inputs', 'VerifyOpts.inputs'), ('GenerateTestDataOpts.object', 'ProveOpts.object')]
def options(db):
    import json
    n, bad, und = 0, [], []
    dec = {}
    for b in db.bodies.values():
        m = re.match(r'harness::bindings::(\w+)::(\w+)::declared$', b['p'])
        if not m: continue
        l = re.search(r"'str': (\"(?:[^\"\\]|\\.)*\"|'(?:[^'\\]|\\.)*')", str(b['e']))
        if not l: continue
        text = eval(l.group(1))
        at = {}
        for a, f in re.findall(r'#\[clap\(([^)]*)\)\]\s*(?:pub\s+)?(\w+)\s*:', text):
            at[f] = dict(re.findall(r'(\w+)\s*=\s*"([^"]*)"', a))
        dec.setdefault(m.group(1), {})[m.group(2)] = at
    for mod, d in sorted(dec.items()):
        get = lambda x: d.get(x.split('.')[0], {}).get(x.split('.')[1], {}).get('default_value')
        for a, b in FLOW:
            if b.split('.')[0] not in d: continue
            n += 1
            if get(a) is None or get(b) is None: und.append((mod + ' ' + b, 'no default declared')); continue
            if get(a) != get(b): bad.append(('%s %s' % (mod, b), 'bindings %s: %s defaults to %r but %s, which produces it, defaults to %r' % (mod, b, get(b), a, get(a))))
        for s, at in d.items():
            for k in ('short', 'long', 'default_value'):
                v = [x[k] for x in at.values() if k in x]
                n += 1
                if len(set(v)) != len(v): bad.append(('%s %s %s' % (mod, s, k), 'bindings %s: two options of %s share the same %s' % (mod, s, k)))
    return n, bad, und
