"""Scenarios for the memory manager driver (harness/mm_drv.cpp): C12 tables, C13 checkpoints, C14 references."""
import json, os, random, subprocess
import vlib
INTR = ['char', 'unsigned_char', 'short', 'unsigned_short', 'int', 'unsigned_int', 'long', 'unsigned_long', 'long_long', 'unsigned_long_long', 'float', 'double', 'bool', 'std::string']
SMALL = INTR + ['Pt', 'Leaf']
NAMES = ['a', 'b', 'ab', 'abc', 'x1', 'y_2', 'zed', 'Q', 'a1', 'a10']
def dims(r, k=3, big=4): return [r.choice([1, 2, 3, big]) for _ in range(r.choice([0, 0, 1, 1, 1, 2, 2, 3][:k * 2 + 2]))]
def build(phase_types):
    """io_src for the harness' types"""
    d = os.path.join(vlib.B, 'mm'); os.makedirs(d, exist_ok=True)
    return d
def decl(r, names, types, ptr=0.25):
    n = '-' if r.random() < .15 else r.choice(names)
    t = r.choice(types); st = 0
    if r.random() < ptr and t not in ('char', 'std::string', 'Stl'): st = r.choice([1, 1, 2])
    d = dims(r)
    if r.random() < .04: d = (d or [2]); d[r.randrange(len(d))] = 0
    op = r.choices(['decl', 'decln', 'ext'], [6, 1, 2])[0]
    if op == 'ext' and n == '-' : n = r.choice(names)
    if op == 'ext' and 0 in d: op = 'decl'
    if r.random() < .04: t = 'Nothing'; op = 'decl'
    return f'{op} {t} {st} {n} ' + ' '.join(map(str, d))
def head(r, full=None): return f'new {r.randrange(10**6)} {r.choice(["hex", "dec"])} {r.choice(["", "full"])}'
def tables(r):
    o = [head(r)]
    for _ in range(r.randint(8, 22)):
        x = r.random()
        if x < .4: o.append(decl(r, NAMES, SMALL))
        elif x < .52: o.append(f'del #{r.randrange(12)}')
        elif x < .58: o.append('deln ' + r.choice(NAMES))
        elif x < .60: o.append('del ' + r.choice(['null', 'inner']))
        elif x < .76: o.append('resize ' + r.choice([f'#{r.randrange(12)}', r.choice(NAMES)]) + ' ' + ' '.join(str(r.choice([1, 2, 3, 4, 5, 7, 0] if r.random() < .2 else [1, 2, 3, 4, 5, 7])) for _ in range(r.choice([1, 1, 2, 2, 3]))))
        elif x < .82: o.append(f'name #{r.randrange(12)} {r.choice(NAMES)}')
        elif x < .9: o.append(f'fill #{r.randrange(12)}')
        elif x < .94: o.append('ptrs 70')
        elif x < .96: o.append(f'clear #{r.randrange(12)}')
        elif x < .975: o.append('reset')
        else: o.append('set 5')
    o.append('dump'); return o
def graph(r, o, n, types=None):
    full = o[0].endswith('full')
    types = types or r.choice([['Node', 'Pt', 'Leaf', 'int', 'double', 'std::string'], ['Node', 'Stl', 'int'], SMALL, SMALL + ['Node', 'Stl'], ['Pt', 'int', 'double', 'Pt']])
    names = list(NAMES); r.shuffle(names)
    for i in range(n):
        t = r.choice(types); st = 0 if t in ('char', 'std::string', 'Stl') else r.choice([0, 0, 0, 1, 1, 2])
        big = t in ('Node', 'Stl')
        d = r.choice([[], [], [2], [1]]) if big and not st else dims(r, 3, 3)
        nm = names.pop() if names and r.random() < .8 else '-'
        op = 'ext' if nm != '-' and r.random() < .2 and not (full and t == 'Stl') else 'decl'   # full checkpoints do not record empty containers: a known finding
        o.append(f'{op} {t} {st} {nm} ' + ' '.join(map(str, d)))
def checkpoints(r):
    o = [head(r)]
    graph(r, o, r.randint(2, 7))
    for k in range(12):
        if r.random() < .75: o.append(f'fill #{k}')
    o.append(f'ptrs {r.choice([30, 60, 90])}')
    for _ in range(r.randint(1, 2)):
        sel = '' if r.random() < .65 else ' '.join(r.sample(NAMES, r.randint(1, 4)))
        o.append('ckpt ' + sel)
        if r.random() < .5: o += ['set 6', decl(r, NAMES, SMALL)]
        if r.random() < .3: o.append(f'del #{r.randrange(8)}')
    if r.random() < .3: o.append('ckpt')
    return o
def refs(r):
    o = [head(r)]
    graph(r, o, r.randint(2, 6))
    for k in range(8): o.append(f'fill #{k}') if r.random() < .3 else None
    o.append('ptrs 85')
    for _ in range(r.randint(25, 60)):
        x = r.random()
        o.append(f'ref {r.choice([0, 0, 8, 30])}' if x < .6 else 'nameof' if x < .85 else 'asg' if x < .95 else 'ptrs 20')
    if r.random() < .3: o += ['resize #0 3', 'ref 10', 'ref 10', 'del #1', 'ref 20', 'ref 20', 'nameof']
    return o
GEN = dict(C12=tables, C13=checkpoints, C14=refs)
def scenarios(pid, n, seed):
    r = random.Random(f'mem/{pid}/{seed}'); return [GEN[pid](r) for _ in range(n)]
def driver():
    return vlib.build_icg_driver('mm', ['mm_drv.cpp'], 'mm_types.hh')
def run(exe, ops):
    try: p = subprocess.run([exe], input='\n'.join(ops) + '\n', capture_output=True, text=True, errors='replace', timeout=vlib.limit(60), env=dict(vlib.env(), ASAN_OPTIONS='detect_leaks=0'))
    except subprocess.TimeoutExpired:
        vlib.hung(); return [dict(e='died', rc=124, err='hangs')]
    ev = []
    for l in p.stdout.splitlines():
        try: ev.append(json.loads(l))
        except ValueError: break
    if p.returncode or not ev or ev[-1].get('e') != 'end': ev.append(dict(e='died', rc=p.returncode, err=p.stderr[-1500:]))
    return ev
FULL_STL = ['new 7 hex full', 'ext Stl 0 a', 'ckpt']
