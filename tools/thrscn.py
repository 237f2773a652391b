"""Scenarios with child threads for spec/Threads.tla."""
import random
import execscn as X
from execscn import Scn, Job, U, sec, T

CH = ['random', 'environment', 'sensor', 'scheduled', 'scheduled', 'scheduled', 'effector', 'logging']
TRIG = ['mutex', 'flag', 'eventfd', 'futex']
CTL = ('ctl', 'c')

class TScn(Scn):
    nth = 1
    def header(s):
        h = super().header(); h['nth'] = s.nth; return h

def gen(rng, focus):
    s = TScn()
    s.tic = rng.choice([64, 128, 1000000])
    s.nth = rng.choice([1, 2, 2, 3])
    s.frame = rng.choice([16, 32, 64, 24])
    s.stop = rng.choice([48, 64, 80, 96, rng.randrange(20, 96)])
    s.extra = ['logret']
    ty = {}
    for k in range(1, s.nth + 1):
        x = rng.random()
        ty[k] = {'sync': 'sync' if x < .8 else 'amf', 'amf': 'amf' if x < .6 else 'sync' if x < .8 else 'async',
                 'async': 'async' if x < .6 else 'sync' if x < .8 else 'amf'}[focus]
    cyc, wait, trig = {}, {}, {}
    for k in ty:
        if ty[k] != 'sync':
            s.inp.append(f'thtype {k} {dict(sync=0, **{"async": 1, "amf": 2})[ty[k]]}')
            cyc[k] = rng.choice([8, 16, 16, 32, 12, 24]) if ty[k] == 'amf' else rng.choice([0, 0, 8, 16, 12])
            if cyc[k]: s.inp.append(f'{ty[k]} {k} {sec(cyc[k])}')
            wait[k] = rng.random() < .6
            if wait[k]: s.inp.append(f'wait {k} 1')
        trig[k] = rng.choice(TRIG) if rng.random() < .5 else 'mutex'
        if trig[k] != 'mutex': s.extra.append(f'trigger {k} {trig[k]}')
    names = rng.sample(['zeta', 'beta', 'alpha', 'm1', 'm2'], rng.randrange(1, 4))
    n = 0
    for o in names:
        js = []
        for k in range(rng.randrange(1, 6)):
            th = rng.randrange(0, s.nth + 1)
            c = rng.choice(CH) if rng.random() < .85 else rng.choice(['top_of_frame', 'end_of_frame'])
            cy = rng.choice([4, 8, 8, 16, 16, 12, 5, 24, 32])
            st = rng.choice([0, 0, 0, cy, rng.randrange(0, 24)])
            en = rng.choice([None, None, None, st + rng.randrange(0, 60)])
            if c in ('top_of_frame', 'end_of_frame'): cy, st, en = U, 0, None
            elif th and ty[th] == 'async' and cyc[th] == 0: st = 0
            js.append(Job(o, f'{rng.choice("jxyb")}{k}', c, rng.choice([1, 2, 3, 60000, 60000, 65535]), cy, st, en, '', th))
        s.objs.append((o, js))
    for k in ty:      # every thread has a job
        if not any(j.th == k and j.c in X.SCHED for j in s.jobs()):
            o = rng.choice(s.objs); o[1].append(Job(o[0], f't{k}', 'scheduled', 60000, rng.choice([4, 8, 16]), 0, None, '', k))
    ctl = Job('ctl', 'c', 'data_record', 65535, rng.choice([4, 8, 8]), 0, None, '', 0)
    s.objs.append(('ctl', [ctl]))
    jobs = s.jobs()
    rank = {}
    for oi, (o, js) in enumerate(s.objs):
        for d, j in enumerate(js): rank[j.full] = (X.SCHED.index(j.c) if j.c in X.SCHED else -1, j.ph, oi, d)
    nctl = s.stop // ctl.cy + 1
    # naps on children (the main thread must wait where it has to), and on the main thread
    for j in jobs:
        if j is ctl: continue
        for i in range(1, 8):
            if rng.random() < (.5 if j.th else .15): s.act(j.full, i, f'nap {rng.choice([1000, 3000, 10000, 25000])}')
    # dependencies: only on jobs with a smaller key, so that they cannot form a cycle
    cand = [j for j in jobs if j.c in X.SCHED and j is not ctl]
    for _ in range(rng.randrange(0, 4)):
        d, j = rng.choice(cand), rng.choice(cand)
        if d.th == j.th or rank[d.full] >= rank[j.full] or ty.get(d.th, 'sync') == 'async': continue
        s.inp.append(f'dep {j.full} {d.full}')
    # async threads: their passes are paced by the main thread through gates
    opened = {k: 0 for k in ty}
    for k in ty:
        if ty[k] != 'async': continue
        js = [j for j in jobs if j.th == k and j.c in X.SCHED]
        if js and rng.random() < .7 and nctl > 3:
            j = rng.choice(js); opened[k] = rng.randrange(2, max(3, nctl - 1))
            s.act(j.full, rng.randrange(1, 3), f'gate g{k}')
            s.act(ctl.full, opened[k], f'open g{k}')
    for k in ty:
        for i in range(max(1, opened[k]), nctl + 1):
            if rng.random() < (.6 if ty[k] == 'async' else .15): s.act(ctl.full, i, f'waitdone {k}')
    # enabling and disabling
    if rng.random() < .4:
        k = rng.choice(list(ty)); a = rng.randrange(1, nctl + 1); b = rng.randrange(a, nctl + 2)
        if a > opened[k]:
            s.act(ctl.full, a, f'waitdone {k}'); s.act(ctl.full, a, f'then {k} 0')
            if rng.random() < .8: s.act(ctl.full, b, f'then {k} 1')
    if rng.random() < .3:
        j = rng.choice([j for j in jobs if j is not ctl])
        a = rng.randrange(1, nctl + 1); b = rng.randrange(a, nctl + 2)
        if j.th == 0 or a > opened[j.th]:
            for i, c in ((a, 'off'), (b, 'on')):
                if j.th: s.act(ctl.full, i, f'waitdone {j.th}')
                s.act(ctl.full, i, f'{c} {j.full}')
    if rng.random() < .2 and nctl > 2:
        i = rng.randrange(max([2] + [o for o in opened.values()]), nctl + 1); s.act(ctl.full, i, 'stopnow')
    return s

def normalise(scn, rc, evs):
    out = [scn.header()]
    tv0 = scn.tic
    for ev in evs:
        k = ev['e']
        if k == 'call': out.append(dict(e='call', j=ev['j'], t=X.units(ev['t'], ev.get('tv', tv0)), n=ev['n'], th=ev['th']))
        elif k == 'ret': out.append(dict(e='ret', j=ev['j'], th=ev['th']))
        elif k == 'act':
            a = ev['a']; r = dict(e='act', c=ev['c'], a='', b='', k=0, v=0, r=ev['r'])
            if ev['c'] in ('thtype', 'wait', 'then'): r['k'], r['v'] = int(a[0]), int(a[1])
            elif ev['c'] in ('amf', 'async'): r['k'], r['v'] = int(a[0]), int(float(a[1]) * U)
            elif ev['c'] == 'waitdone': r['k'] = int(a[0])
            else: r['a'] = a[0] if a else ''; r['b'] = a[1] if len(a) > 1 else ''
            out.append(r)
        else: out.append(ev)
    if rc == -999: rc = 'hang'
    elif rc < 0: rc = f'signal {-rc}'
    out.append(dict(e='end', ret=rc if isinstance(rc, int) else -999, why=str(rc)))
    return out

def scenarios(focus, n, seed):
    return [gen(random.Random(f'thr/{focus}/{seed}/{i}'), focus) for i in range(n)]
