"""Scenarios for the message driver (harness/msg_drv.cpp)."""
import json, os, random, re, shutil, subprocess, tempfile
import vlib
LV = [0, 1, 2, 3, 10, 5, 99, 100, 101, 250]
TEXT = ['hello\\n', 'percent\\s%d\\s%s\\s%n\\n', 'x', 'a|L\\s\\s1|b\\n', 'two\\nlines\\n', 'quote"\\\\', '300*ab', '2500*q', 'tail\\n\\n', '100%', '\\s']
def scenario(r):
    o = []; names = []
    def new(k, n, a=0): o.append(f'new {k} {n} {a}'); names.append(n)
    for i in range(r.randint(1, 3)): new('rec', f'r{i}', 0)
    if r.random() < .8: new(r.choice(['cout', 'cout', 'lcout', 'thr']), 'so')
    for k in ('file', 'hs', 'tc', 'play'):
        if r.random() < .5: new(k, k + '1')
    for i in range(r.randint(0, 2)): new('cust', f'c{i}', r.choice(LV))
    mgr = r.random() < .5
    if mgr: new('mgr', 'mg')
    opened = 0; twice = set()
    for n in names:
        if r.random() < .7: o.append('sub ' + n)
    subbed = {x.split()[1] for x in o if x.startswith('sub')}
    for _ in range(r.randint(10, 30)):
        x = r.random()
        if x < .5: o.append(f'pub {r.choice(["pub", "printf", "hs", "vpub", "vhs"])} {r.choice(LV)} {r.choice(TEXT) or "0*x"}')
        elif x < .6: n = r.choice(names); o.append('sub ' + n)
        elif x < .7: o.append('unsub ' + r.choice(names))
        elif x < .82: o.append(f'en {r.choice(names)} {r.randrange(2)}')
        elif x < .87: o.append(f'col {r.choice(names)} {r.randrange(2)}')
        elif x < .91: o.append(f'time {r.choice([0, 1, 999, 1000000, 123456789, 2000000001])} {r.choice([0, 1, 8, 10, 1000, 1024, 10000, 1000000])}')
        elif x < .95: o.append('get ' + r.choice(names + ['nobody']))
        elif mgr and opened < 3: o.append(f'open f{opened} {r.choice(LV)}'); opened += 1
    return o
def parallel(r):
    o = ['new rec r0 %d' % r.choice([0, 20]), 'new rec r1', 'sub r0']
    both = r.random() < .6
    if both: o.append('sub r1')
    for k in ('file', 'hs', 'tc'):
        if r.random() < .7: o += [f'new {k} {k}1', f'sub {k}1']
    if r.random() < .7: k = r.choice(['cout', 'thr', 'thr', 'lcout']); o += [f'new {k} so', 'sub so']
    if r.random() < .5: o += ['new mgr mg', 'sub mg', 'open f0 2']
    for _ in range(r.randint(2, 4)): o.append(f'par {r.randint(2, 5)} {r.choice([5, 20, 50])} {r.choice([1, 2, 0, 120])} ' + (r.choice(['r1', 'r0' if both else 'r1']) if r.random() < .5 else ''))
    return o
def scenarios(n, seed):
    r = random.Random(f'msg/{seed}'); return [parallel(r) if i % 4 == 3 else scenario(r) for i in range(n)]
HDR = re.compile(r'\|L +(\d+)\|\d{4}/\d\d/\d\d,\d\d:\d\d:\d\d\.\d{6}\|[^|]*\|simname\|T 7\|(-?\d+)\.(\d+)\| ')
def deliveries(s, kind, ids, par, full):
    """the bytes a subscriber got, as deliveries"""
    if kind == 'play':
        if not s: return []
        if par: return [[-1, [], '', tid(x + ';', ids, True), ''] for x in s.split(';')[:-1]]
        if full != '' and s == full * (len(s) // len(full)): return [[-1, [], '', tid(full, ids, par), '']] * (len(s) // len(full))
        return [[-1, [], '', tid(s, ids, par), '']]
    r = []; h = '|L '
    ms = [m for m in HDR.finditer(s)]
    if not ms: return [['junk', [], '', s[:60], '']] if s else []
    if ms[0].start(): r.append(['junk', [], '', s[:60], ''])
    for a, b in zip(ms, ms[1:] + [None]):
        body = s[a.end(): b.start() if b else len(s)]; pre = post = ''
        if kind == 'rec':
            m = re.search('\x01(\\d+)\x02$', body)
            if m: pre = m.group(1); body = body[:m.start()]
        else:
            m = re.match('\x1b\\[(\\d\\d)m', body)
            if m: pre = m.group(1); body = body[m.end():]
            m = re.search('\x1b\\[(\\d\\d)m$', body)
            if m: post = m.group(1); body = body[:m.start()]
        r.append([int(a.group(1)), [int(a.group(2)), int(a.group(3)), len(a.group(3))], pre, tid(body, ids, par), post])
    return r
def tid(t, ids, par):
    if par:
        m = re.fullmatch(r'm(\d+)\.(\d+);', t); return [int(m.group(1)), int(m.group(2))] if m else [-1, -1]
    return ids.setdefault(t, f't{len(ids)}')
def run(exe, ops):
    d = tempfile.mkdtemp(dir=vlib.B)
    try:
        p = subprocess.run([exe, d], input='\n'.join(ops) + '\n', capture_output=True, text=True, errors='replace', timeout=vlib.limit(60), env=vlib.env())
    except subprocess.TimeoutExpired:
        vlib.hung(); return [dict(e='scn'), dict(e='died', why='hangs')]
    finally: shutil.rmtree(d, ignore_errors=True)
    ev = [dict(e='scn')]; kinds = dict(none='none'); ids = {}
    for l in p.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: break
        if e['e'] == 'new': kinds[e['n']] = e['k']
        if e['e'] == 'open': kinds[e['n']] = 'cfile'
        if 'got' in e:
            par = e['e'] == 'par'
            full = e.get('t', '')
            e['got'] = {n: deliveries(s, kinds.get(n, 'none'), ids, par, full) for n, s in e['got'].items()}
            if not par: e['t'] = tid(full, ids, False)
        ev.append(e)
    if p.returncode or ev[-1]['e'] != 'end': ev.append(dict(e='died', rc=p.returncode, err=p.stderr[-800:]))
    return ev
def driver(): return vlib.build_driver('msg', ['msg_drv.cpp'], flags='-rdynamic -Wl,-u,io_src_sizeof_Trick__MessageCustomFile')
