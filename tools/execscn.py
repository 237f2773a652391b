"""Scenario-driven executions of SIM_verif for the executive specifications: generate, run, normalise into traces."""
import os, json, random, subprocess, shutil, time, signal
from concurrent.futures import ThreadPoolExecutor
import vlib

U = 64                       # model time unit: 1/64 s
MAXT = 2000000000
SCHED = ['automatic', 'random', 'environment', 'sensor', 'sensor_emitter', 'sensor_reflector', 'sensor_receiver',
         'scheduled', 'effector', 'effector_emitter', 'effector_receiver', 'automatic_last', 'logging', 'data_record',
         'system_checkpoint', 'system_advance_sim_time', 'system_moding', 'integ_loop']
USCHED = [c for c in SCHED if not c.startswith('system_') and not c.startswith('automatic') and c != 'integ_loop']
ONCE = ['default_data', 'initialization', 'top_of_frame', 'end_of_frame', 'shutdown']
FRZ = ['freeze_init', 'freeze_scheduled', 'freeze', 'unfreeze', 'freeze_automatic']
# jobs declared in sims/SIM_verif/S_define, in declaration order: name, class, phase, cycle, start, stop, tag
SDEF = [('sd1', 'shutdown', 60000, 1, 0, None, ''), ('ef1', 'end_of_frame', 100, 1, 0, None, ''), ('lg1', 'logging', 60000, 1, 0, None, ''),
        ('sc1', 'scheduled', 7, .5, .25, 1.5, ''), ('sc2', 'scheduled', 3, .5, .5, None, ''), ('en1', 'environment', 60000, .75, 0, None, 'grp'),
        ('in1', 'initialization', 2, 1, 0, None, ''), ('in2', 'initialization', 1, 1, 0, None, ''), ('dd1', 'default_data', 60000, 1, 0, None, ''),
        ('tf1', 'top_of_frame', 60000, 1, 0, None, ''), ('fi1', 'freeze_init', 60000, 1, 0, None, ''), ('uf1', 'unfreeze', 60000, 1, 0, None, ''),
        ('ee1', 'effector', 60000, .5, 0, None, 'grp')]
# in S_define order of the 7-th: ("sc2" is P3 (0.5, 0.5): start 0.5 cycle 0.5)

def T(u): return MAXT if u is None else int(u)
def sec(u): return repr(u / U)

class Job:
    def __init__(s, obj, n, c, ph=60000, cy=U, st=0, en=None, tag='', th=0):
        s.obj, s.n, s.c, s.ph, s.cy, s.st, s.en, s.tag, s.th = obj, n, c, ph, cy, st, en, tag, th
    @property
    def full(s): return s.obj + '.' + s.n
    def decl(s, d):
        return dict(n=s.full, o=s.obj, c=s.c, ph=s.ph, d=d, cy=s.cy, st=s.st, en=T(s.en), tag=s.tag, th=s.th)

def last_only(cs):
    """what ends the job comes last, and only once"""
    r = [c for c in cs if not c.startswith(('ret', 'term'))]; return r + [c for c in cs if c.startswith(('ret', 'term'))][:1]
class Scn:
    def __init__(s):
        s.tic, s.frame, s.stop, s.ffr, s.bound, s.freezecmd = 64, U, 2 * U, U // 4, 0, 0
        s.objs, s.late, s.acts, s.inp, s.extra, s.post = [], [], {}, [], [], []
    def jobs(s, late=True): return [j for o in s.objs + (s.late if late else []) for j in o[1]]
    def act(s, job, n, cmd):
        if ' zz' in cmd: return        # the job that ends every freeze stays
        s.acts.setdefault(job, {}).setdefault(n, []).append(cmd)
    def text(s):
        L = []
        if s.tic: L.append(f'tic {s.tic}')
        L += [f'frame {sec(s.frame)}', f'freezeframe {sec(s.ffr)}']
        if s.stop is not None: L.append(f'stop {sec(s.stop)}')
        if s.bound: L.append('freezebound 1')
        if s.freezecmd: L.append('freezecmd 1')
        L += s.extra
        for kind, objs in (('obj', s.objs), ('late', s.late)):
            for o, js in objs:
                L.append(f'{kind} {o}')
                for j in js:
                    L.append(f'job {j.n} {j.c} {j.th} {j.ph} {sec(j.cy)} {sec(j.st)} {"1e37" if j.en is None else sec(j.en)} {j.tag or "-"}')
        for j, d in s.acts.items():
            for n, cs in d.items():
                for c in last_only(cs): L.append(f'act {j} {n} {c}')
        L += ['post ' + p for p in s.post]
        return '\n'.join(L) + '\n'
    def header(s):
        decls = {'sdef': [Job('sdef', n, c, ph, int(cy * U), int(st * U), None if en is None else int(en * U), tag).decl(i + 1)
                          for i, (n, c, ph, cy, st, en, tag) in enumerate(SDEF)]}
        for o, js in s.objs + s.late: decls[o] = [j.decl(i + 1) for i, j in enumerate(js)]
        return dict(e='scn', order=['sdef'] + [o for o, _ in s.objs], decls=decls, frame=s.frame, term=T(s.stop), ffr=s.ffr,
                    bound=bool(s.bound), freezecmd=bool(s.freezecmd))
    def input_py(s):
        L = ['trick_vs.vs.set_enabled(False)', 'trick.vlog("\\"e\\":\\"input0\\"")']
        L += [f'trick.vact("{c}")' for c in s.inp]
        L += ['trick.vlog("\\"e\\":\\"input\\"")']
        return '\n'.join(L) + '\n'

# ------------------------------------------------------------------ running
def run_one(simdir, exe, d, scn_text, input_text, timeout=90, args=(), envx=None):
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + '/scn.txt', 'w').write(scn_text)
    open(d + '/input.py', 'w').write(input_text)
    e = vlib.env(VERIF_SCN=d + '/scn.txt', VERIF_TRACE=d + '/trace.ndjson', **(envx or {}))
    out = open(d + '/out.txt', 'wb')
    p = subprocess.Popen([exe, d + '/input.py'] + list(args), cwd=simdir, env=e, stdout=out, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
    try: rc = p.wait(vlib.limit(timeout))
    except subprocess.TimeoutExpired:
        vlib.hung()
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        p.wait(); rc = -999
    out.close()
    evs = []
    if os.path.exists(d + '/trace.ndjson'):
        for l in open(d + '/trace.ndjson'):
            try: evs.append(json.loads(l))
            except ValueError: evs.append(dict(e='garbled', s=l.strip()[:80]))
    return rc, evs

def run_all(simdir, exe, tag, items, par=32, timeout=90):
    """items: (name, scn_text, input_text, args) -> {name: (rc, events)}"""
    base = os.path.join(vlib.B, 'runs', tag)
    shutil.rmtree(base, ignore_errors=True)
    def f(it):
        d = os.path.join(base, it[0])
        r = run_one(simdir, exe, d, it[1], it[2], timeout, it[3] if len(it) > 3 else ())
        return it[0], r
    with ThreadPoolExecutor(par) as ex: res = dict(ex.map(f, items))
    return res

MODES = {0: 'init', 1: 'freeze', 5: 'run', 6: 'exit'}
TIMECMD = {'cycle': 1, 'settime': 0, 'freezeat': 0, 'stopat': 0, 'next': 0, 'frame': 0}

def units(t, tv):
    x = t * U
    return x // tv if x % tv == 0 else -1000000 - t     # a time that is no multiple of the unit is explained by nothing

def normalise(scn, rc, evs):
    out = [scn.header()]
    tv0 = scn.tic or 1000000
    for ev in evs:
        k = ev['e']
        if k == 'call':
            tv = ev.get('tv', tv0)
            ft = ev['ft']
            out.append(dict(e='call', j=ev['j'], t=units(ev['t'], tv), ft=units(ft, tv) if abs(ft) < 10**12 else -1,
                            m=MODES.get(ev['m'], str(ev['m'])), n=ev['n'], th=ev['th']))
        elif k == 'instr': out.append(ev)
        elif k in ('input', 'input0'): out.append(ev)
        elif k == 'ret': out.append(dict(e='ret', j=ev['j'], n=ev['n']))
        elif k == 'act':
            a = ev['a']
            r = dict(e='act', c=ev['c'], a=a[0] if a else '', b=a[1] if len(a) > 1 else '', v=0, r=ev['r'])
            if ev['c'] in TIMECMD:
                x = float(a[TIMECMD[ev['c']]]) * U
                r['v'] = int(x)
            elif ev['c'] in ('term', 'tic'): r['v'] = int(a[0])
            if 'v' in ev: r['v'] = ev['v']
            out.append(r)
        else: out.append(ev)
    if rc == -999: rc = 'hang'
    elif rc < 0: rc = f'signal {-rc}'
    out.append(dict(e='end', ret=rc if isinstance(rc, int) else -999, why=str(rc)))
    return out

# ------------------------------------------------------------------ random scenarios
def gen(rng, focus):
    s = Scn()
    s.tic = rng.choice([64, 128, 192, 1000000, 0])
    s.frame = rng.choice([16, 32, 64, 24, 48, 8])
    s.stop = rng.choice([None, 0, 1, 1, 1, 1, 1]) if focus == 'phases' else 1
    if s.stop == 1: s.stop = rng.choice([64, 96, 128, 160, rng.randrange(20, 160)])
    elif s.stop is None: s.stop = None
    s.ffr = rng.choice([8, 16, 12])
    nobj = rng.randrange(1, 5)
    names = rng.sample(['zeta', 'beta', 'alpha', 'm1', 'm2', 'obj', 'kk', 'a'], 7)
    def job(o, k, classes):
        c = rng.choice(classes)
        if c in USCHED or c in ('freeze_scheduled', 'integ_loop', 'automatic', 'automatic_last', 'freeze_automatic'):
            cy = rng.choice([2, 3, 4, 5, 8, 8, 12, 16, 16, 24, 32, 40, 64, 96])
            if c == 'freeze_scheduled': cy = rng.choice([2, 3, 4, 8, 12, 16])
            st = rng.choice([0, 0, 0, cy, rng.randrange(0, 40), s.frame])
            en = rng.choice([None, None, None, st + rng.randrange(0, 80), rng.randrange(0, 100), st])
            if c == 'freeze_scheduled' or c.startswith('automatic') or c == 'freeze_automatic' or c == 'integ_loop': st, en = 0, None
        else: cy, st, en = U, 0, None
        ph = rng.choice([1, 2, 3, 60000, 60000, 60000, 65535, 100, 0])
        tag = rng.choice(['', '', 'grp', 'ta', 'tb']) if focus in ('control', 'objects', 'order') else ''
        return Job(o, f'{rng.choice("jxyb")}{k}', c, ph, cy, st, en, tag)
    mix = {'sched': USCHED * 4 + ['scheduled'] * 10 + ['integ_loop', 'top_of_frame'], 'order': USCHED + ONCE * 2 + ['scheduled'] * 6,
           'phases': ONCE * 3 + ['scheduled', 'logging', 'environment'] * 2, 'freeze': USCHED + ['scheduled'] * 6 + FRZ[:4] * 5 + ['top_of_frame', 'end_of_frame', 'freeze_automatic'],
           'control': USCHED + ['scheduled'] * 12 + ['top_of_frame', 'end_of_frame', 'initialization', 'shutdown', 'integ_loop'],
           'objects': USCHED + ['scheduled'] * 12 + ['top_of_frame', 'end_of_frame', 'shutdown', 'initialization'],
           'instr': USCHED + ['scheduled'] * 6 + ONCE + FRZ[:4],
           'tic': USCHED + ['scheduled'] * 12 + ['top_of_frame', 'end_of_frame', 'initialization', 'integ_loop', 'freeze_scheduled']}[focus]
    nj = {'order': (3, 9)}.get(focus, (1, 6))
    if focus == 'order':      # many jobs due at the same times
        grid = rng.choice([8, 16, 32])
    s.objs = [(names[i], [job(names[i], k, mix) for k in range(rng.randrange(*nj))]) for i in range(nobj)]
    if focus == 'order':
        for j in s.jobs():
            if j.c in USCHED and rng.random() < .8: j.cy, j.st, j.en = grid, rng.choice([0, grid]), None
    if focus == 'sched':
        for j in s.jobs():
            if j.c in ('automatic', 'automatic_last', 'integ_loop'): pass
        if rng.random() < .5:
            o = s.objs[0]; a = Job(o[0], 'auto', rng.choice(['automatic', 'automatic_last']), rng.choice([1, 60000]), U, 0, None)
            o[1].append(a)
            for n in range(1, rng.randrange(2, 12)): s.act(a.full, n, f'next {sec(rng.randrange(1, 20))}')
    allj = [j for j in s.jobs()]
    every = allj + [Job('sdef', *x[:3], int(x[3] * U), int(x[4] * U), None, x[6]) for x in SDEF]
    active = [j for j in every if j.c in USCHED or j.c in ('top_of_frame', 'end_of_frame', 'integ_loop')]
    def where(): j = rng.choice(active); return j.full, rng.randrange(1, 9)
    def target(): return rng.choice(every).full
    def tag(): return rng.choice(['grp', 'ta', 'tb', 'nosuch'])
    if focus == 'phases':
        k = rng.random()
        pool = [j for j in every]
        own = [j for j in allj if j.c not in ('instrumentation',)]       # return values of S_define void-style jobs are ignored
        if k < .25: j = rng.choice(own); s.act(j.full, rng.randrange(1, 3), f'ret {rng.randrange(1, 9)}')
        elif k < .5: j = rng.choice(pool); s.act(j.full, rng.randrange(1, 3), f'term {rng.randrange(0, 9)}')
        elif k < .6: s.act(*where(), 'stopnow')
        elif k < .75: s.act(*where(), f'stopat {sec(rng.randrange(1, 200))}')
        elif k < .8: s.inp.append(f'stopat {sec(rng.randrange(1, 200))}')
        if s.stop is None: s.act('sdef.lg1', 3, 'stopnow')
        if k < .8 and rng.random() < .4:
            w = where(); s.act(*w, rng.choice(['term 6' if w[0].startswith('sdef') else 'ret 3', 'term 4', 'stopnow']))
    frz_tic = focus == 'tic' and rng.random() < .5
    if focus in ('freeze',) or frz_tic or (focus == 'instr' and rng.random() < .4) or (focus == 'control' and rng.random() < .2):
        s.bound = int(rng.random() < .4)
        s.freezecmd = int(rng.random() < .2)
        fz = Job('zz', 'thaw', 'freeze', rng.choice([1, 60000]), U)
        s.objs.insert(rng.randrange(0, len(s.objs) + 1), ('zz', [fz]))
        for n in range(1, 120):
            if rng.random() < .45 or n > 30: s.act(fz.full, n, 'run')
        for _ in range(rng.randrange(1, 5)):
            if rng.random() < .5: s.act(*where(), 'freeze')
            else:
                s.act(*where(), f'freezeat {sec(rng.randrange(0, 150))}')
        if rng.random() < .3: s.inp.append(f'freezeat {sec(rng.randrange(0, 100))}')
        if rng.random() < .2: s.inp.append('freeze')
        if rng.random() < .2: s.act(*where(), 'run')
        if rng.random() < .2:
            fj = [j for j in allj if j.c in FRZ]
            if fj: s.act(rng.choice(fj).full, rng.randrange(1, 4), rng.choice(['freeze', 'run', f'freezeat {sec(rng.randrange(0, 150))}', 'stopnow', 'ret 3', 'term 2']))
        if rng.random() < .3: fj = [j for j in allj if j.c in ('initialization',)]; [s.act(j.full, 1, 'freeze') for j in fj[:1]]
        for j in allj:
            if j.c == 'freeze_automatic':
                for n in range(1, 300): s.act(j.full, n, f'next {sec(rng.randrange(1, 20))}')
    # a driver: a fast job of its own whose successive calls give the commands of a story, in order
    slot = [0]
    if focus in ('control', 'instr', 'objects', 'freeze', 'tic') and rng.random() < .7:
        drv = Job('dv', 'd', rng.choice(['scheduled', 'scheduled', 'environment', 'logging', 'top_of_frame']), rng.choice([1, 60000]), rng.choice([2, 4, 5]))
        s.objs.insert(rng.randrange(0, len(s.objs) + 1), ('dv', [drv])); slot = [1]
        def tell(c):
            if slot[0] > 1 and rng.random() < .3: slot[0] -= 1
            s.act(drv.full, slot[0], c); slot[0] += rng.choice([1, 1, 2, 4])
    else:
        def tell(c): s.act(*where(), c)
    if focus == 'control' and slot[0]:
        for _ in range(rng.randrange(1, 3)):
            o, js = rng.choice(s.objs[:-1] or s.objs); o = rng.choice([o, o, 'sdef']) if o != 'dv' else 'sdef'
            if o == 'sdef': js = [j for j in every if j.obj == 'sdef' and j.c not in ('initialization', 'default_data', 'shutdown')]
            j = rng.choice([js[0], js[-1], rng.choice(js)])
            for _ in range(rng.randrange(3, 9)):
                k = rng.random()
                tell(('off ' + j.full) if k < .15 else ('on ' + j.full) if k < .25 else ('objoff ' + o) if k < .5 else ('objon ' + o) if k < .75 else
                     (rng.choice(['jobsoff ', 'jobson ', 'getobj ']) + o) if k < .85 else ('off ' + rng.choice(js).full) if k < .9 else
                     f'cycle {j.full} {sec(rng.choice([2, 4, 8, 12, 16, 32, 5]))}')
    if focus == 'control':
        for _ in range(rng.randrange(2, 9)):
            w = where(); k = rng.random()
            if rng.random() < .15: w = None
            if k < .25: c = 'off ' + (target() if rng.random() < .7 else tag())
            elif k < .5: c = 'on ' + (target() if rng.random() < .7 else tag())
            elif k < .6: c = rng.choice(['objoff ', 'objon ', 'objoff ']) + rng.choice([o for o, _ in s.objs] + ['sdef', 'nosuch'])
            elif k < .7: c = rng.choice(['objon ', 'jobsoff ', 'jobson ', 'getobj ']) + rng.choice([o for o, _ in s.objs] + ['sdef'])
            else: c = f'cycle {target() if rng.random() < .8 else tag()} {sec(rng.choice([2, 4, 8, 12, 16, 32, 24, 5, 48]))}'
            if 'zz' in c: continue
            if w is None: s.inp.append(c)
            else:
                s.act(*w, c)
                if c.startswith('objoff') and rng.random() < .8:
                    s.act(*where(), 'objon ' + c.split()[1])
    if focus == 'objects':
        for i in range(rng.randrange(1, 4)):
            o = f'late{i}'
            js = [job(o, k, mix) for k in range(rng.randrange(1, 5))]
            for j in js:
                if rng.random() < .5: j.st = 0; j.en = None if j.en is not None and j.en < j.st else j.en
                if j.c in ('initialization', 'default_data'): j.c = 'scheduled'
            s.late.append((o, js))
            tell('add ' + o)
            if rng.random() < .4: s.act(rng.choice(js + active).full, rng.randrange(1, 9), 'del ' + o) if False else None
        for o, js in s.objs:
            if o != 'dv' and rng.random() < .5: tell('del ' + o)
    if focus == 'tic':
        if s.tic == 0: s.tic = 128
        for _ in range(rng.randrange(1, 4)):
            c = f'tic {rng.choice([64, 128, 192, 320, 1000000, 640, 64000])}'
            k = rng.random()
            if k < .25: s.inp.append(c)
            elif k < .4 and frz_tic: s.act('zz.thaw', rng.randrange(1, 5), c)
            else: tell(c)
            for _ in range(rng.randrange(0, 3)):
                q = rng.choice(['getterm', 'gettime', 'getframe', 'getfftics', 'getcyc ' + rng.choice([j for j in every if j.c in USCHED]).full])
                s.act(*where(), q)
        if rng.random() < .3 and not any(c.startswith('freezeat') for c in s.inp): s.inp.append(f'settime {sec(rng.randrange(0, 100))}')
        if rng.random() < .3: s.act(*where(), f'stopat {sec(rng.randrange(1, 200))}')
        if rng.random() < .3: s.act(*where(), f'cycle {target()} {sec(rng.choice([2, 4, 8, 12, 16, 32, 24, 5, 48]))}')
        if rng.random() < .3: s.inp.append(f'frame {sec(rng.choice([8, 16, 24, 40]))}')
        if rng.random() < .2 and nobj > 1: s.act(*where(), f'off {target()}')
    if focus == 'instr':
        ins = Job('ii', 'i1', 'instrumentation', 5), Job('ii', 'i2', 'instrumentation', 3), Job('ii', 'i3', 'instrumentation', 5)
        s.objs.append(('ii', list(ins)))
        for _ in range(rng.randrange(1, 6)):
            i = rng.choice(ins).full; k = rng.random()
            c = 'instb ' + i if k < .25 else 'insta ' + i if k < .5 else 'instr ' + i if k < .6 else \
                rng.choice(['instb1', 'insta1']) + f' {i} {rng.choice([j for j in every if j.c != "instrumentation"]).full}'
            k = rng.random()
            if k < .3: s.inp.append(c)
            elif k < .7: tell(c)
            elif k < .85 and any(o == 'zz' for o, _ in s.objs): s.act(rng.choice(['zz.thaw', 'sdef.fi1', 'sdef.uf1']), rng.randrange(1, 4), c)
            else: s.act(*where(), c)
            if c.startswith('inst') and not c.startswith('instr') and rng.random() < .5:
                d = 'instr ' + i
                if rng.random() < .5 and any(o == 'zz' for o, _ in s.objs): s.act(rng.choice(['zz.thaw', 'sdef.fi1', 'sdef.uf1']), rng.randrange(1, 4), d)
                else: tell(d)
    return s

def scenarios(focus, n, seed):
    return [gen(random.Random(f'{focus}/{seed}/{i}'), focus) for i in range(n)]
