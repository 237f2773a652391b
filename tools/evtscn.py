"""Scenarios and traces for events (SIM_sys, spec/Events.tla)."""
import os, random
import vlib, execscn as X
from execscn import Scn, Job, U, sec
PRELUDE = '''
TV = %d
def L(s): trick.vlog(s + ',"t":%%d' %% trick.exec_get_time_tics())
CN = {}
def nth(s, key):
    n = CN.get(key, 0); CN[key] = n + 1
    return s[n %% len(s)] == '1'
def run(cs):
    for c in cs: X(*c)
def C(e, i):
    L('"e":"cb","ev":"%%s","i":%%d' %% (e, i + 1))
    run(CC.get((e, i), ()))
    v = nth(TR.get((e, i), '1'), (e, i)); L('"e":"ce","ev":"%%s","i":%%d,"v":%%d' %% (e, i + 1, v))
    return VAL[(i + len(e)) %% len(VAL)] if v else 0
def A(e, i):
    L('"e":"ab","ev":"%%s","i":%%d' %% (e, i + 1))
    run(AC.get((e, i), ()))
    L('"e":"ae","ev":"%%s","i":%%d' %% (e, i + 1))
VAL = [True, 1, 7, -1]
def X(op, e='', i=0, k=0, kind='', j='', w='', v=0):
    L('"e":"cmd","op":"%%s","ev":"%%s","i":%%d,"k":%%d,"kind":"%%s","j":"%%s","w":"%%s","v":%%d' %% (op, e, i + 1, k, kind, j, w, v))
    g = globals(); o = g.get(e)
    if op == 'new': g[e] = trick.new_event(e); trick.vact('evreg ' + e)
    elif op == 'read': trick.add_read(v / 64., "A('%%s', 0)" %% e)
    elif op == 'add': trick.add_event(o)
    elif op == 'tie': (trick.add_event_before if w == 'before' else trick.add_event_after)(o, j)
    elif op == 'rem': trick.remove_event(o)
    elif op == 'del': trick.delete_event(o)
    elif op == 'active': o.activate() if v else o.deactivate()
    elif op == 'cond':
        if kind == 'py': o.condition(i, "C('%%s', %%d)" %% (e, i))
        elif kind == 'var': o.condition_var(i, 'evobj.e.b[%%d]' %% k)
        elif kind == 'job': o.condition_job(i, 'evobj.mal%%d' %% k, 'a comment')
        elif kind == 'err': o.condition(i, 'there_is_no_such_name')
        elif kind == 'novar': o.condition_var(i, 'evobj.e.nothing')
        elif kind == 'nojob': o.condition_job(i, 'evobj.nothing')
        elif kind == 'false': o.condition(i, 'False')
    elif op == 'act':
        if kind == 'py': o.action(i, "A('%%s', %%d)" %% (e, i))
        elif kind == 'on': o.action_job_on(i, 'evobj.mal%%d' %% k)
        elif kind == 'off': o.action_job_off(i, 'evobj.mal%%d' %% k)
        elif kind == 'call': o.action_job(i, 'evobj.mal%%d' %% k)
        elif kind == 'err': o.action(i, 'there_is_no_such_name()')
    elif op == 'con': (o.condition_enable if v else o.condition_disable)(i)
    elif op == 'chold': (o.condition_hold_on if v else o.condition_hold_off)(i)
    elif op == 'aon': (o.action_enable if v else o.action_disable)(i)
    elif op == 'all': o.condition_all() if v else o.condition_any()
    elif op == 'cyc': o.set_cycle(v / 64.)
    elif op == 'man': getattr(o, 'manual_' + kind)()
    elif op == 'nman': getattr(trick, 'manual_' + kind)(e)
    elif op == 'setb': trick.vact('setb %%d %%d' %% (k, v))
'''
class EScn(Scn):
    def header(s): return dict(e='scn')
    def input_py(s):
        L = ['trick_vs.vs.set_enabled(False)', PRELUDE % s.tic, f'TR = {s.tr!r}', f'CC = {s.cc!r}', f'AC = {s.ac!r}']
        L += [f'trick.vact("probe tof trick_em.ep.add_pending_events {k}")' for k in (1, 3)]
        L += ['trick.vact("probe pe trick_em.ep.process_event 1")']
        L += [f'trick.vact("probe {t} {t} 1")' for t in s.targets]
        L += [f'trick.vact("truth {k} {x}")' for k, x in enumerate(s.mtr)]
        L += [f'X{tuple(c)!r}' for c in s.inp]
        return '\n'.join(L) + '\n'
CK = ['py', 'py', 'py', 'var', 'var', 'job', 'err', 'novar', 'nojob', 'false']
AK = ['py', 'py', 'py', 'py', 'on', 'off', 'call', 'err']
def bits(r):
    p = r.choice([.3, .6, .9, 1]); return ''.join('1' if r.random() < p else '0' for _ in range(r.randrange(1, 7)))
def gen(r, big=False):
    s = EScn(); s.tic = r.choice([64, 128, 1000000]); s.frame = r.choice([4, 8, 16, 32, 64]); s.stop = r.choice([64, 96, 128, 48]) * (3 if big else 1)
    ne = r.choice([1, 2, 2, 3, 3, 4]); es = [f'e{k}' for k in range(ne)]; s.tr, s.cc, s.ac, s.inp = {}, {}, {}, []
    s.mtr = [bits(r) for _ in range(4)]; nread = [0]
    s.targets = []; jobs = []
    for k in range(r.choice([0, 1, 1, 2])):
        c = r.choice(['scheduled', 'environment', 'sensor', 'effector', 'logging']); jobs.append(Job('ob', f't{k}', c, r.choice([1, 60000, 65000]), r.choice([4, 8, 8, 16]))); s.targets.append(f'ob.t{k}')
    ctl = []
    for k in range(r.choice([1, 2, 3])):
        c = r.choice(['scheduled', 'environment', 'top_of_frame', 'effector', 'end_of_frame', 'random']); j = Job('ob', f'c{k}', c, r.choice([1, 60000, 65000]), U if 'frame' in c else r.choice([2, 4, 8, 16]), 0 if 'frame' in c else r.choice([0, 0, 3])); jobs.append(j); ctl.append(j)
    r.shuffle(jobs)
    s.objs.append(('ob', jobs)); s.lax = {j.full for j in jobs if 'frame' in j.c}
    nc = {e: 0 for e in es}; na = {e: 0 for e in es}
    def anyi(n): return r.choice([r.randrange(n + 1), r.randrange(n + 1), max(0, n - 1)]) if r.random() < .97 else r.choice([-1, n + 1])
    def condcmd(e):
        x = r.random(); o = r.choice(es)
        if x < .35: return ('con', e, anyi(nc[e]), 0, '', '', '', 0)
        if x < .5: return ('con', o, anyi(nc[o]), 0, '', '', '', r.randrange(2))
        if x < .7: return ('chold', o, anyi(nc[o]), 0, '', '', '', r.randrange(2))
        if x < .85: return ('setb', '', 0, r.randrange(4), '', '', '', r.randrange(2))
        return ('active', r.choice([o2 for o2 in es if o2 != e] or [e]), 0, 0, '', '', '', r.randrange(2))
    def cmd(own=-1, job=False):
        """own: number of the event whose action this is; -1: a job, the input file or a read"""
        e = es[own] if own >= 0 and r.random() < .4 else r.choice(es); x = r.random(); k = r.randrange(4)
        if own >= 0 and e == es[own] and x < .4: return ('active', e, 0, 0, '', '', '', 1)
        if x < .22: return ('active', e, 0, 0, '', '', '', int(r.random() < .75))
        if x < .30: return ('rem' if r.random() < .8 else 'del', e)
        if x < .41:
            if job and s.targets and r.random() < .5: return ('tie', e, 0, 0, '', r.choice(s.targets), r.choice(['before', 'after']))
            return ('add', e)
        if x < .47: return ('con', e, anyi(nc[e]), 0, '', '', '', r.randrange(2))
        if x < .53: return ('chold', e, anyi(nc[e]), 0, '', '', '', r.randrange(2))
        if x < .58: return ('aon', e, anyi(na[e]), 0, '', '', '', r.randrange(2))
        if x < .61: return ('all', e, 0, 0, '', '', '', r.randrange(2))
        if x < .65: return ('cyc', e, 0, 0, '', '', '', r.choice([0, 1, 2, 4, 8, 8, 16, 64, 3]))
        if x < .79:
            kd = r.choice(['on', 'off', 'done', 'done', 'fire', 'fire']); op = r.choice(['man', 'man', 'nman'])
            if kd == 'fire' and own >= 0:
                if own + 1 >= ne: return ('setb', '', 0, k, '', '', '', r.randrange(2))
                e = r.choice(es[own + 1:])
            return (op, e, 0, 0, kd)
        if x < .88: return ('setb', '', 0, k, '', '', '', r.randrange(2))
        if x < .92: return ('cond', e, anyi(nc[e]), k, r.choice(CK))
        if x < .96: return ('act', e, anyi(na[e]), k, r.choice(AK))
        n = f'r{nread[0]}'; nread[0] += 1
        if r.random() < .5: s.ac[(n, 0)] = [cmd() for _ in range(r.choice([1, 2]))]
        return ('read', n, 0, 0, '', '', '', r.choice([r.randrange(s.stop), r.randrange(0, s.stop, 8)])) if own < 0 else ('setb', '', 0, k, '', '', '', 1)
    for n, e in enumerate(es):
        s.inp.append(('new', e)); nc[e] = r.choice([0, 1, 1, 2, 2, 3]); na[e] = r.choice([0, 1, 1, 2, 3])
        if r.random() < .8: s.inp.append(('cyc', e, 0, 0, '', '', '', r.choice([1, 2, 4, 4, 8, 8, 16, 3, 0])))
        for i in range(nc[e] + 2): s.tr[(e, i)] = bits(r)
        for i in range(nc[e]): s.inp.append(('cond', e, i, r.randrange(4), r.choice(CK)))
        for i in range(na[e]): s.inp.append(('act', e, i, r.randrange(4), r.choice(AK)))
        if r.random() < .4: s.inp.append(('all', e, 0, 0, '', '', '', 1))
        if r.random() < .8: s.inp.append(('active', e, 0, 0, '', '', '', 1))
        if r.random() < .3 and nc[e]: s.inp.append((r.choice(['con', 'chold']), e, r.randrange(nc[e]), 0, '', '', '', r.choice([0, 1])))
    for n, e in enumerate(es):
        for i in range(nc[e] + 1):
            if r.random() < .15: s.cc[(e, i)] = [condcmd(e)]
        for i in range(na[e] + 1):
            if r.random() < .7: s.ac[(e, i)] = [cmd(n) for _ in range(r.choice([1, 1, 2]))]
            if r.random() < .4: s.ac.setdefault((e, i), []).append(('active', e, 0, 0, '', '', '', 1))
        if na[e] and r.random() < .6:
            i = r.randrange(na[e]); s.inp.append(('act', e, i, 0, 'py')); s.ac[(e, i)] = [('active', e, 0, 0, '', '', '', 1)] + s.ac.get((e, i), [])[:1]
        x = r.random()
        if x < .55: s.inp.append(('add', e))
        elif x < .85 and s.targets:
            for _ in range(r.choice([1, 1, 2])): s.inp.append(('tie', e, 0, 0, '', r.choice(s.targets), r.choice(['before', 'after'])))
    for _ in range(r.choice([0, 1, 2, 3])): s.inp.append(cmd(job=True))
    dens = r.choice([.15, .4, .7])
    for j in ctl:
        for k in range(1, s.stop // (s.frame if 'frame' in j.c else j.cy) + 2):
            if r.random() < dens:
                for _ in range(r.choice([1, 1, 2, 3])): s.act(j.full, k, f'py X{tuple(cmd(job=True))!r}')
    for t in s.targets:
        for k in range(1, 12):
            if r.random() < dens / 3: s.act(t, k, f'py X{tuple(cmd(0))!r}')
    return s
def scenarios(n, seed, big=False): return [gen(random.Random(f'evt/{seed}/{i}'), big) for i in range(n)]
KIND = dict(novar='false', nojob='false')
def normalise(s, rc, evs):
    out = [s.header()]; tv = s.tic
    def u(t): return t if t == -1 else X.units(t, tv)
    for ev in evs:
        k = ev['e']
        if k == 'call': out.append(dict(e='call', j=ev['j'], t=u(ev['t']), tgt=int(ev['j'] in s.targets), lax=int(ev['j'] in s.lax)))
        elif k == 'act':
            if ev['r'] != 0 and ev['c'] != 'py': out.append(dict(e='bad', c=ev['c'], t=0))
        elif k == 'pr':
            if ev['w'] == 'm' and ev['j'] not in s.targets: continue
            r = dict(e='pr', j=ev['j'], w=ev['w'], t=u(ev['t']))
            if 'ev' in ev:
                r['m'] = ev['m']
                r['ev'] = {n: dict(x, tf=u(x['tf']), tr=u(x['tr']), c=[dict(y, t=u(y['t'])) for y in x['c']], a=[dict(y, t=u(y['t'])) for y in x['a']]) for n, x in ev['ev'].items()}
            out.append(r)
        else:
            r = dict(ev, t=u(ev['t'])) if 't' in ev else ev
            if k == 'cmd' and ev['kind'] in KIND: r['kind'] = KIND[ev['kind']]
            out.append(r)
    out.append(dict(e='end' if rc == 0 else 'died', rc=rc, t=out[-1].get('t', 0)))
    return out
def run(d, exe, tag, items, par=16):
    res = X.run_all(d, exe, tag, [(n, s.text(), s.input_py()) for n, s in items], par=par, timeout=60)
    return [vlib.Trace(n, normalise(s, *res[n]), s) for n, s in items]
