"""Logs and reading sessions for the log driver (harness/log_drv.cpp), spec/LogRead.tla."""
import json, os, random, re, shutil, struct, subprocess
import vlib, drscn as D
L = '/repo/trick_source/data_products/Log/'
def driver():
    src = [L + x for x in ('DataStream.cpp', 'Csv.cpp', 'TrickBinary.cpp', 'trick_byteswap.cpp', 'DataStreamGroup.cpp', 'DataStreamFactory.cpp', 'Delta.cpp', 'MatLab.cpp',
                                              'MatLab4.cpp', 'ExternalProgram.cpp')] + ['/repo/trick_source/data_products/units/map_trick_units_to_udunits.cpp', 'log_stub.cpp']
    fl = '-fsanitize=address -fno-omit-frame-pointer -I/repo/trick_source/data_products -I' + L + ' -I/repo/trick_source/data_products/units'
    return [vlib.build_driver(n, [m] + src, flags=fl, link='-ldl', libs=False) for n, m in (('log', 'log_drv.cpp'), ('trk2ascii', '/repo/trick_source/data_products/Apps/Trk2csv/trk2ascii.cpp'))]
# name -> (Trick 10 type code, Trick 7 type code, struct letter, size)
TY = {'char': (1, 0, 'b', 1), 'unsigned_char': (2, 1, 'B', 1), 'short': (4, 3, 'h', 2), 'unsigned_short': (5, 4, 'H', 2), 'int': (6, 5, 'i', 4), 'unsigned_int': (7, 6, 'I', 4), 'long': (8, 7, 'q', 8),
      'unsigned_long': (9, 8, 'Q', 8), 'float': (10, 9, 'f', 4), 'double': (11, 10, 'd', 8), 'bitfield': (12, 11, 'i', 4), 'bitfield1': (12, 11, 'b', 1), 'bitfield2': (12, 11, 'h', 2), 'unsigned_bitfield': (13, 12, 'I', 4),
      'unsigned_bitfield1': (13, 12, 'B', 1), 'unsigned_bitfield2': (13, 12, 'H', 2), 'long_long': (14, 13, 'q', 8), 'unsigned_long_long': (15, 14, 'Q', 8), 'bool': (17, 17, 'B', 1), 'enum': (21, 102, 'i', 4),
      'long4': (8, 7, 'i', 4), 'unsigned_long4': (9, 8, 'I', 4)}
RANGE = dict(b=(-128, 127), B=(0, 255), h=(-2**15, 2**15 - 1), H=(0, 2**16 - 1), i=(-2**31, 2**31 - 1), I=(0, 2**32 - 1), q=(-2**63, 2**63 - 1), Q=(0, 2**64 - 1))
UNITS = ['m', '--', 'kg', 'm/s', 'm/s2', 'r/s', 'd', 'lbm', 'one', 'cnt']
def write_trk(path, cols, rows, be, ver, tf):
    e = '>' if be else '<'; b = f'Trick-{ver}-{"B" if be else "L"}'.encode() + struct.pack(e + 'i', len(cols) + 1)
    for n, u, ty in [('sys.exec.out.time', 's', 'float' if tf else 'double')] + cols:
        x = TY[ty]; b += struct.pack(e + 'i', len(n)) + n.encode() + struct.pack(e + 'i', len(u)) + u.encode() + struct.pack(e + 'ii', x[0] if ver == '10' else x[1], x[3])
    for t, vs in rows:
        b += struct.pack(e + ('f' if tf else 'd'), t / 64)
        for (n, u, ty), v in zip(cols, vs): b += struct.pack(e + TY[ty][2], v)
    open(path, 'wb').write(b)
def write_csv(path, cols, rows):
    with open(path, 'w') as f:
        f.write(','.join(f'{n} {{{u}}}' for n, u, _ in [('sys.exec.out.time', 's', '')] + cols) + '\n')
        for t, vs in rows: f.write(','.join(['%20.16g' % (t / 64)] + [' %s' % (repr(v) if isinstance(v, float) else v) for v in vs]) + '\n')
def num(x): return repr(float(x))
def small(x):
    x = float(x); return int(x) if x == int(min(max(x, -1e9), 1e9)) and abs(x) < 1e6 else 0
def logrec(d, f, ext, names, units, rows):
    return dict(d=d, f=f, ext=ext, names=names, units=units, rows=[dict(t=D.tunits(r[0]), v=[num(x) for x in r], n=[small(x) for x in r]) for r in rows])
def synth(r, d):
    """a directory of logs with every type, byte order and generation"""
    os.makedirs(d); out = []; used = set(); base = r.choice(['a.b', 'ball.obj.state.output.pos'])
    names = [base + x for x in ('', '_more', '[0]', '[1]', '.c', '2', 'x.y')] + ['z', 'zz', 'sys.q']
    r.shuffle(names); sub = r.random() < .5
    for k in range(r.choice([1, 2, 2, 3])):
        n = r.randrange(1, 5); ns = [names.pop() for _ in range(min(n, len(names)))]
        if not ns: break
        csv = r.random() < .4; ty = [r.choice(['int', 'double', 'unsigned_int', 'long_long'] if csv else list(TY)) for _ in ns]; cols = [(a, r.choice(UNITS), b) for a, b in zip(ns, ty)]
        cyc = r.choice([1, 2, 3, 4, 6, 8, 5]); t = r.choice([0, 0, cyc, 7]); rows = []
        for _ in range(r.choice([0, 1, 2, 5, 12, 30])):
            vs = []
            for b in ty:
                f = TY[b][2]
                if f in 'fd': v = r.choice([0.0, -1.5, 0.1, 3.25e10, -2.0 ** -20, 1e-5, r.randrange(-999, 999) * 1.0]); v = D.f32(v) if f == 'f' else v
                else: lo, hi = RANGE[f]; v = r.choice([lo, hi, 0, 1, lo // 2, hi // 2 + 1, r.randint(lo, hi), r.randint(max(lo, -99), min(hi, 99))])
                vs.append(v)
            rows.append((t, vs))
            if r.random() < .08: continue   # two rows at one time
            t += cyc * r.choice([1, 1, 1, 1, 2])
        f = f'{d}/log_g{k}.' + ('csv' if csv else 'trk')
        if csv: write_csv(f, cols, rows)
        else: write_trk(f, cols, rows, r.random() < .5, r.choice(['10', '10', '07']), r.random() < .15)
        out.append(logrec(d, f, f[-3:], ['sys.exec.out.time'] + [c[0] for c in cols], ['s'] + [c[1] for c in cols], [[t / 64] + vs for t, vs in rows]))
    return out
def recorded(s, d):
    """the logs of a run of SIM_sys"""
    out = []
    for g in s.groups:
        if g['delim']: continue
        f = f'{d}/log_{g["n"]}.{g["fmt"]}'; ty = [x[0] for x in D.header(f'{d}/log_{g["n"]}.header')]
        x = D.read_trk(f, ty) if g['fmt'] == 'trk' else D.read_csv(f, ty, '')
        out.append(logrec(d, f, g['fmt'], x['names'], x['units'], [[float(v) if v else 0 for v in row] for row in x['num']]))
        out[-1]['types'] = ty
    return out
def session(r, logs):
    """commands for the driver"""
    o = []; k = 0; T = sorted({row['t'] for l in logs for row in l['rows']}) or [0]
    def cols(l): return [i for i in range(len(l['names'])) if not (l['ext'] == 'csv' and l.get('types', ['double'] * 99)[i] == 'char')]
    pool = [(l, i) for l in logs for i in cols(l)]
    if not pool: return o
    def openone():
        nonlocal k
        l, i = r.choice(pool); k += 1; o.append(f'open s{k} {l["d"]} {l["names"][i]}'); return f's{k}', l
    for l in logs:
        if l['ext'] == 'trk' and r.random() < .5: o.append('vars ' + l['f'])
    for _ in range(r.randrange(1, 5)):
        x = r.random()
        if x < .1: o.append(f'open n{k} {logs[0]["d"]} {r.choice([logs[0]["names"][-1][:-1] or "q", "nosuch.name", logs[0]["names"][-1] + "x"])}'); continue
        if x < .6:
            s, l = openone(); n = len(l['rows'])
            if r.random() < .4: o += [f'get {s}'] * (n + 1) + [f'end {s}']
            else:
                for _ in range(r.randrange(1, 2 * n + 6)): c = r.choice(['get', 'get', 'get', 'peek', 'end', 'step', 'begin' if r.random() < .3 else 'end', 'at']); o.append(f'{c} {s}' + (f' {r.choice(T + [T[0] + 999]) / 64}' if c == 'at' else ''))
            continue
        if x < .7 and len(pool) > 1:
            ok = [(l, i) for l, i in pool if i > 0 and all(row['n'][i] or row['v'][i] in ('0.0', '-0.0') for row in l['rows'])]
            if len(ok) > 1:
                (a, i), (b, j) = r.sample(ok, 2); k += 1
                if a['names'][i] != b['names'][j]: o.append(f'open d{k} {a["d"]} delta({a["names"][i]}:{a["d"]},{b["names"][j]}:{b["d"]})'); o += [f'get d{k}'] * (min(len(a['rows']), len(b['rows'])) + 1)
            continue
        ms = [openone()[0] for _ in range(r.choice([1, 2, 2, 3]))]; k += 1; g = f'g{k}'; o.append(f'group {g} ' + ' '.join(ms))
        step = r.random() < .5
        if r.random() < .4: o.append(f'gstop {g} {r.choice(T) / 64}')
        if r.random() < .4: o.append(f'gstart {g} {r.choice(T[:len(T) // 2 + 1]) / 64}')
        if step and r.random() < .4: o.append(f'gpres {g} 0')
        if step: o.append(f'gbegin {g}')
        n = 2 + max(len(l['rows']) for l in logs); o += [f'{"gstep" if step else "gmatch"} {g}'] * r.choice([n, 2 * n, n // 2, 3])
    return o
def execute(exe, logs, cmds):
    p = subprocess.run([exe], input=''.join(c + '\n' for c in cmds), text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=vlib.limit(60), errors='replace', env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
    out = [dict(e='logs', logs=[{k: v for k, v in l.items() if k != 'types'} for l in logs])]; dead = set()
    for ln in p.stdout.split('\n'):
        if not ln.startswith('{'): continue
        try: e = json.loads(ln, strict=False)
        except ValueError: out.append(dict(e='garbled', l=ln[:200])); break
        s = e['s']; c = e['e']
        if s in dead and c[0] == 'g' and c != 'group' or s in dead and s[0] == 'd': continue
        if c == 'open' and s[0] == 'd':
            a, b = re.fullmatch(r'delta\((.*),(.*)\)', e['p']).groups(); (p1, d1), (p2, d2) = a.split(':'), b.split(':'); out.append(dict(e='dopen', s=s, r=e['r'], d=d1, p=p1, d2=d2, p2=p2)); continue
        if c == 'open' and not e['r']: e.update(f='', u='', tu='')
        for f in ('t', 'w'):
            if f in e and c != 'gpres': e[f] = D.tunits(e[f])
        if 'v' in e: e['v'] = num(e['v'])
        if c in ('get', 'peek') and not e['r']: e.update(t=0, v='')
        if c == 'at' and not e['r']: e['v'] = ''
        if c == 'get' and s[0] == 'd': e['e'] = 'dget'; e['v'] = str(small(e['v'])) if e['r'] else ''; dead |= set() if e['r'] else {s}
        if c in ('gmatch', 'gstep'):
            e['l'] = [[D.tunits(a) if a else -1, num(b) if b else ''] for a, b in e.get('l', [])]
            if e['end'] or c == 'gmatch' and not e['r']: dead.add(s)   # nothing more is asked of a group at its end
        out.append(e)
    if p.returncode: out.append(dict(e='died', rc=p.returncode, err=p.stderr[-1500:]))
    return out
def convert(exe, logs):
    """trk2ascii on every binary log"""
    out = []
    for l in logs:
        if l['ext'] != 'trk': continue
        o = l['f'][:-4] + '.out'; p = subprocess.run([exe, '-csv', o, l['f']], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=vlib.limit(60), env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
        try:
            x = open(o).read().split('\n'); os.remove(o)
            h = [re.fullmatch(r'(.*) \{([^}]*)\}', c).groups() for c in x[0].split(',')]; rows = []
            for i, ln in enumerate(x[1:-1]):
                f = ln.split(','); want = l['rows'][i]['v'] if i < len(l['rows']) else []
                rows.append([want[j] if j < len(want) and float(y) == float('%.15G' % float(want[j])) else num(y) for j, y in enumerate(f)])
            out.append(dict(e='conv', s=l['f'], n=[a for a, b in h], u=[b for a, b in h], rows=rows))
        except (OSError, AttributeError, ValueError) as ex: out.append(dict(e='conv', s=l['f'], n=[repr(ex)[:99] + p.stdout[-200:]], u=[], rows=[]))
    return out
