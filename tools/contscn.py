"""Container and collection operation sequences."""
import random, itertools, json, os, subprocess
import vlib

def lists_exhaustive():
    """every sequence of three list operations (then read back) over short lists"""
    base = ['addhead 5', 'addtail 7', 'addtail 5', 'before 1 8', 'after 1 8', 'before 2 9', 'after 2 9', 'remove 1', 'remove 2', 'remove 3', 'clear', 'sort', 'setat 2 6']
    read = ['find 5', 'findpos 5', 'findpos 7', 'index 0', 'index 1', 'index 2', 'index 3']
    for pre in ([], ['addtail 5', 'addtail 7'], ['addtail 7', 'addtail 5', 'addhead 7']):
        for ops in itertools.product(base, repeat=2): yield pre + list(ops) + read

class ListGen:
    def __init__(s, rng): s.r, s.live, s.n = rng, [], 0
    def add(s, at): s.n += 1; s.live.insert(at, s.n)
def legal(ops):
    """drop operations on positions that do not exist (any more); follow only where cells are"""
    live, n, out = [], 0, []
    for o in ops:
        w = o.split()
        if w[0] in ('before', 'after', 'remove', 'getat', 'setat') and int(w[1]) not in live: continue
        if w[0] in ('addhead', 'addtail', 'before', 'after'): n += 1; live.append(n)
        if w[0] == 'remove': live.remove(int(w[1]))
        if w[0] == 'clear': live = []
        out.append(o)
    return out
def random_ops(rng, kind):
    n = rng.choice([10, 30, 60]); ops = []
    vals = rng.choice([3, 6, 20]); cells = 0
    for _ in range(n):
        v = rng.randint(1, vals)
        if kind == 'list':
            o = rng.choice(['addhead', 'addtail', 'addtail', 'before', 'after', 'remove', 'remove', 'getat', 'setat', 'find', 'findpos', 'index', 'sort', 'clear' if rng.random() < .2 else 'addtail'])
            if o in ('addhead', 'addtail', 'before', 'after'): cells += 1
            if o in ('before', 'after', 'setat'): ops.append(f'{o} {rng.randint(1, max(1, cells))} {v}')
            elif o in ('remove', 'getat'): ops.append(f'{o} {rng.randint(1, max(1, cells))}')
            elif o == 'index': ops.append(f'index {rng.randint(0, 8)}')
            else: ops.append(f'{o} {v}')
        elif kind == 'queue': ops.append(f'{rng.choice(["enq", "deq", "qpeek", "enq"])} {v}')
        elif kind == 'stack': ops.append(f'{rng.choice(["push", "pop", "speek", "push"])} {v}')
        elif kind == 'tree': ops.append(f'{rng.choice(["bins", "bins", "bdel", "bfind", "bins", "bdel"] + (["bclear"] if rng.random() < .2 else []))} {v}')
        elif kind == 'map':
            k = 'k%d' % rng.randint(1, vals)
            o = rng.choice(['mput', 'mput', 'mget', 'mdel', 'miter'])
            ops.append('miter' if o == 'miter' else f'{o} {k}' + (f' {v}' if o == 'mput' else ''))
    return ops
def scenarios(n, seed):
    rng = random.Random(seed)
    r = [legal(o) for o in lists_exhaustive()]
    for i in range(n):
        k = ['list', 'list', 'queue', 'stack', 'tree', 'map'][i % 6]
        r.append(legal(random_ops(rng, k)) if k == 'list' else random_ops(rng, k))
    return [['new %d' % rng.choice([1, 2, 7])] + o for o in r]

def run(exe, scn, timeout=60):
    """one process per scenario; -> events"""
    try:
        p = subprocess.run([exe], input='\n'.join(scn) + '\n', capture_output=True, text=True, timeout=vlib.limit(timeout), env=dict(vlib.env(), ASAN_OPTIONS='detect_leaks=0'))
        rc, out, err = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as ex:
        vlib.hung()
        rc, out, err = 124, (ex.stdout or b'').decode() if isinstance(ex.stdout, bytes) else ex.stdout or '', 'timeout'
    evs = []
    for l in out.splitlines():
        try: ev = json.loads(l)
        except ValueError: break
        if ev['e'] == 'new': ev = dict(e='scn')
        if ev['e'] == 'end': continue
        evs.append(ev)
    evs.append(dict(e='end', ret=rc, why=err[:300] if rc else ''))
    return evs
def many(exe, scns, group=25):
    """several scenarios per process; a process that fails is re-run one by one"""
    groups = [scns[i:i + group] for i in range(0, len(scns), group)]
    def one(g):
        evs = run(exe, [l for s in g for l in s])
        if evs[-1]['ret'] == 0: return [vlib.Trace('group', evs, g)]
        return [vlib.Trace('one', run(exe, s), [s]) for s in g]
    with vlib.ThreadPoolExecutor(vlib.NCPU) as ex: return [t for ts in ex.map(one, groups) for t in ts]
def collections(n, seed):
    rng = random.Random(seed)
    r = [list(o) for k in (1, 2, 3, 4) for o in itertools.product(['collect 1 5', 'collect 1 6', 'uncollect 1 5', 'uncollect 1 6', 'collect 2 5'], repeat=k)]
    for _ in range(n):
        m = rng.choice([1, 2, 4]); vals = rng.choice([2, 5, 30])
        r.append([f'{rng.choice(["collect", "collect", "uncollect"])} {rng.randint(1, m)} {rng.randint(1, vals)}' for _ in range(rng.choice([8, 30, 80]))])
    return [['new 1'] + o for o in r]
