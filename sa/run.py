#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough]: decide one property on /repo's current tree.

exit 0: holds on everything analysed; exit 1 + VIOLATION line: broken; exit 2: the tree cannot be analysed."""
import sys, os, time, json, signal, threading, traceback, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import dump

class Timeout(Exception): pass

def _alarm(*_): raise Timeout()

def analyse(task):
    """one summary comparison; returns a plain dict"""
    i, prop, sub = task
    import pairs, table
    from elim import Undecided as UNDEC
    pr = TABLE[prop][i]
    inst = None if sub is None else pr.insts[sub]
    out = {'pair': pr.name, 'inst': inst, 'i': i, 'sub': sub}
    t = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(pr.timeout * SCALE))
    import terms
    def one(inst):
        if pr.kind == 'pair': return pairs.decide(pr, inst)
        import importlib
        mod, fn = pr.kind.split('.')
        f = getattr(importlib.import_module(mod), fn)
        return f(pr, inst) if pr.insts else f(pr)
    try:
        terms.BIG[0] = False
        if sub is not None and sub >= pr.nbase and max([x for x in inst.values() if isinstance(x, int)] or [0]) > 10:
            # a coarser domain, believed about this size only if it decides the small sizes as the exact one does
            terms.BIG[0] = True
            for k in range(pr.nbase):
                if one(pr.insts[k])['res'] != 'eq': raise pairs.Unsup('the domain for large sizes is too coarse here')
        r = one(inst)
        if terms.BIG[0] and r['res'] == 'diff' and one(pr.control[sub])['res'] != 'eq': raise pairs.Unsup('the domain for large sizes is too coarse at the size before this one')
        out.update(r)
    except Timeout: out.update(res='timeout')
    except pairs.Unsup as x: out.update(res='unsup', why=str(x)[:300])
    except UNDEC as x: out.update(res='unsup', why='undecided: ' + str(x)[:300])
    except RecursionError: out.update(res='unsup', why='recursion limit')
    except MemoryError: out.update(res='unsup', why='memory')
    except Exception as x:
        tb = traceback.extract_tb(x.__traceback__)[-1]
        out.update(res='unsup', why='%r at %s:%d' % (x, os.path.basename(tb.filename), tb.lineno))
    finally: signal.alarm(0); terms.BIG[0] = False
    out['s'] = round(time.time() - t, 2)
    return out

def worker(q, o):
    threading.stack_size(512 << 20)
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    # the analysis runs in the main thread (signals); its stack is raised by the parent's ulimit
    while True:
        t = q.get()
        if t is None: return
        o.put(('start', os.getpid(), t))
        o.put(('done', os.getpid(), t, analyse(t)))

def pool(tasks, n, until=None):
    """run tasks in forked workers; a worker that dies loses only its task; what is not done at `until` counts as timed out"""
    q, o = mp.Queue(), mp.Queue()
    for t in tasks: q.put(t)
    ps = {}
    def spawn():
        p = mp.Process(target=worker, args=(q, o)); p.start(); ps[p.pid] = p
    for _ in range(min(n, max(1, len(tasks)))): spawn()
    cur, res = {}, []
    import queue
    idle = 0
    while len(res) < len(tasks):
        if until is not None and time.time() > until:
            done = {(r['i'], r['sub']) for r in res}
            res += [{'pair': TABLE[t[1]][t[0]].name, 'i': t[0], 'sub': t[2], 'inst': None, 'res': 'timeout', 'why': '', 's': 0} for t in tasks if (t[0], t[2]) not in done]
            for p in ps.values(): p.kill()
            for p in ps.values(): p.join()
            return res
        try: m = o.get(timeout=1)
        except queue.Empty:
            for pid in list(ps):
                if not ps[pid].is_alive():
                    ps.pop(pid)
                    if pid in cur:
                        t = cur.pop(pid)
                        res.append({'pair': TABLE[t[1]][t[0]].name, 'i': t[0], 'sub': t[2], 'inst': None, 'res': 'unsup', 'why': 'analysis process died', 's': 0})
                    if len(res) < len(tasks): spawn()
            continue
        if m[0] == 'start': cur[m[1]] = m[2]
        else: cur.pop(m[1], None); res.append(m[3])
    for _ in ps: q.put(None)
    for p in ps.values():
        p.join(2)
        if p.is_alive(): p.kill()
    return res

def named_sizes(p, ok, db, top):
    import re
    names = set().union(*[r.get('functions', ()) for r in ok])
    lits = set()
    for n in names:
        b = db.bodies.get(n)
        if b: lits |= {int(x) for x in re.findall(r'"int": "(\d+)"', json.dumps(b))}
    sizes = sorted({x for c in lits if 3 <= c <= top for x in (c, c + 1)})
    if p.log: sizes = sorted(set(sizes) | {x for c in lits if 2 <= c <= 7 for x in (1 << c, (1 << c) + 1)})      # a size that enters through its logarithm
    base = ok[-1]['inst'] if p.base is None else p.base
    keys = p.vary if p.vary is not None else [(k,) for k, v in base.items() if isinstance(v, int) and (k.endswith('len') or k.startswith('USIZE') or k.startswith('arg'))]
    for ks in keys:
        for n in sizes:
            yield tuple(dict(base, **{k.split('+')[0]: m + int((k.split('+') + ['0'])[1]) for k in ks}) for m in (n, n - 1))

def known_findings(prop):
    out = {}
    try:
        for l in open(os.path.join(V, 'known-findings.txt')):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                k, what = l.split(' ', 2)[2].split(' | ', 1)
                out[k] = what
    except OSError: pass
    return out

def main():
    global TABLE, SCALE
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    SCALE = 1 if tier == 'quick' else 4
    t0 = time.time()
    import resource
    try: resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    except Exception: pass
    if os.environ.get('VERIF_CHILD') != '1':
        os.environ['VERIF_CHILD'] = '1'
        os.execv(sys.executable, [sys.executable] + sys.argv)     # the new stack limit applies after exec
    try: dump.dump()
    except dump.DumpError as x:
        print('cannot analyse: %s' % x); return 2
    import pairs, table
    TABLE = table.P
    pairs.db()
    known = known_findings(prop)
    viol, undec, proved, bounded, details = [], [], [], [], []
    stats = {'functions': set(), 'evaluated_calls': 0, 'effects': 0}
    prs = TABLE.get(prop, [])
    tasks = [(i, prop, None) for i, p in enumerate(prs) if p.sym or not p.insts]
    lim = (lambda s: t0 + s * (1 if tier == 'quick' else 12))
    res = pool(tasks, 8, lim(400)) if tasks else []
    sym = {r['i']: r for r in res}
    again = []
    for i, p in enumerate(prs):
        r = sym.get(i)
        if r and r['res'] == 'eq': continue
        if r and r['res'] == 'diff' and not p.sized: continue
        again += [(i, prop, k) for k in range(len(p.insts))]
    if tier == 'thorough': again = [(i, prop, k) for i, p in enumerate(prs) for k in range(len(p.insts))]
    res2 = pool(again, 8, lim(640)) if again else []
    byi = {}
    for r in res2: byi.setdefault(r['i'], []).append(r)
    # sizes named by integer constants of the analysed code: a special case for some size has to name it
    more = []
    for i, p in enumerate(prs):
        rs = byi.get(i, [])
        if not rs or (sym.get(i) or {}).get('res') == 'eq' or any(r['res'] == 'diff' for r in rs): continue
        ok = [r for r in rs if r['res'] == 'eq']
        if not ok: continue
        n0 = p.nbase = len(p.insts)
        p.control = {}
        for inst, ctl in named_sizes(p, ok, pairs.db(), 260 if tier == "quick" else 600):
            if inst not in p.insts:
                p.control[len(p.insts)] = ctl
                p.insts.append(inst)
        more += [(i, prop, k) for k in range(n0, len(p.insts))]
    res3 = pool(more, 8, max(time.time() + 20, lim(500))) if more else []
    for r in res3:
        if r['res'] in ('eq', 'diff'): byi[r['i']].append(r)
    for i, p in enumerate(prs):
        r = sym.get(i)
        rs = byi.get(i, [])
        for x in ([r] if r else []) + rs:
            stats['functions'] |= set(x.get('functions', ()))
            stats['evaluated_calls'] += x.get('calls', 0)
            stats['effects'] += x.get('effects', 0)
        bad = [x for x in rs if x['res'] == 'diff']
        if r and r['res'] == 'diff' and not p.sized: bad.append(r)
        if bad:
            b = bad[0]
            viol.append((p.name, b.get('what', ''), b)); st = 'violated'
        elif r and r['res'] == 'eq': proved.append(p.name); st = 'equal for all sizes' if p.sized else 'equal'
        elif rs and all(x['res'] == 'eq' for x in rs): bounded.append(p.name); st = 'equal at every listed size'
        elif any(x['res'] == 'eq' for x in rs): bounded.append(p.name); st = 'equal at some listed sizes'
        else:
            why = '; '.join(sorted({x['res'] + ': ' + x.get('why', '') for x in ([r] if r else []) + rs}))[:300]
            undec.append((p.name, why)); st = 'undecided (%s)' % why
        details.append({'unit': p.name, 'status': st, 'seconds': round(sum(x['s'] for x in ([r] if r else []) + rs), 2)})
    rules = table.RULES.get(prop, []) if hasattr(table, 'RULES') else []
    rcount = {}
    for rule in rules:
        n, bad, un = rule(pairs.db())
        rcount[rule.__name__] = n
        for key, what in bad: viol.append((key, what, {}))
        for key, why in un: undec.append((key, why))
    new = 0
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    for key, what, b in viol:
        k = key.replace(' ', '_')
        if k in known:
            print('KNOWN-FINDING: property=%s %s: %s' % (prop, key, known[k])); continue
        new += 1
        path = os.path.join(V, 'evidence', '%s-%d.violation.txt' % (prop, new))
        with open(path, 'w') as f:
            f.write('property %s\nunit %s\ninstance %s\n\n%s\n' % (prop, key, b.get('inst'), b.get('report') or what))
        print('%s: %s' % (key, what.split('\n')[0][:400]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    total = len(prs) + sum(rcount.values())
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': 'other',
          'coverage': {'explanation': 'value-numbering summaries of the type-checked source, compared with a reference summary per unit; structural rules counted per site',
                       'units': len(prs), 'proved_symbolic': len(proved), 'decided_at_sizes': len(bounded), 'undecided': len(undec),
                       'undecided_units': [list(x) for x in undec][:40], 'rule_sites': rcount,
                       'functions_analysed': len(stats['functions']), 'functions': sorted(stats['functions']),
                       'calls_interpreted': stats['evaluated_calls'], 'effects_recorded': stats['effects'], 'units_detail': details[:120]},
          'assumptions': table.ASSUME.get(prop, []) if hasattr(table, 'ASSUME') else [],
          'wall_s': round(time.time() - t0, 2), 'violations': new}
    with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s %s: %d units, %d proved, %d at sizes, %d undecided, %d violations, rules %s, %.1fs' % (
        prop, tier, len(prs), len(proved), len(bounded), len(undec), new, rcount, time.time() - t0))
    for n, w in undec: print('  undecided %s: %s' % (n, w[:200]))
    if total == 0 and not prs and not rules:
        print('nothing registered for ' + prop); return 2
    return 1 if new else 0

if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
