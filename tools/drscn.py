"""Scenarios and log parsing for data recording (SIM_sys, spec/DataRec.tla)."""
import os, random, re, struct
import vlib, execscn as X
from execscn import Scn, Job, U, sec, T

INT = dict(uc=(0, 255), s=(-32768, 32767), us=(0, 65535), i=(-2**31, 2**31 - 1), ui=(0, 2**32 - 1), l=(-2**63, 2**63 - 1), ul=(0, 2**64 - 1),
           ll=(-2**63, 2**63 - 1), ull=(0, 2**64 - 1), b=(0, 1), e=None, b1=(-16, 15), b2=(0, 511), b3=(-131072, 131071), i2=(-2**31, 2**31 - 1))
for k in range(4): INT[f'a[{k}]'] = INT['i']
for k in range(2): INT[f'vi[{k}]'] = INT['i']
for k in range(12): INT[f'x[{k}]'] = INT['i']
DBL = ['d'] + [f'm[{i}][{j}]' for i in range(2) for j in range(3)] + [f'v[{k}]' for k in range(3)] + [f'y[{k}]' for k in range(12)]
DPOOL = [0.0, 1.0, -1.0, 0.5, -0.1, 1e-300, -1.5e300, 0.1, 123456.789, 1e15, 9007199254740.5, -2.25e-8, 3.141592653589, 5e-05, 1e22, 99999999.5]
FPOOL = [0.0, 1.0, -0.5, 3.25, 0.1, -1e-30, 1.5e30, 123456.0, 7.125e-05, -99999.5]
ALLV = ['c', 'f', 'p[0]'] + list(INT) + DBL
def f32(x): return struct.unpack('<f', struct.pack('<f', float(x)))[0]
def ftok(x): return format(float(x), '.8g')
def dtok(x): return format(float(x), '.16g')
def value(r, n):
    """(text for the command, token)"""
    if n == 'c': k = r.randrange(33, 127); k = 65 if k in (34, 44, 92) else k; return str(k), str(k)
    if n == 'f': x = r.choice(FPOOL); return repr(x), ftok(f32(x))
    if n in DBL: x = r.choice(DPOOL) if r.random() < .7 else r.randrange(-10**6, 10**6) / 8; return repr(x), dtok(x)
    if n == 'e': x = r.choice([3, -7, 100000]); return str(x), str(x)
    if n == 'p': x = r.choice(['i', 'i2', 'x[0]']); return dict(i='i', i2='i2').get(x, 'x0'), x
    lo, hi = INT[n]; x = r.choice([lo, hi, 0, lo + 1, hi - 1, r.randint(lo, hi), r.randint(max(lo, -9), min(hi, 9))]); x = max(lo, min(hi, x))
    return str(x), str(x)
def vals0():
    v = {n: '0' for n in ALLV if n != 'p[0]'}; v['c'] = '97'; v['p'] = 'i'; v['e'] = '3'; return v
KIND = ['always', 'changes', 'step']
BUF = ['thread', 'none', 'ring']
class DScn(Scn):
    def header(s): return dict(e='scn', vals=vals0(), groups={g['n']: {k: g[k] for k in ('cycles', 'freq', 'buf', 'max', 'lim', 'vars', 'names', 'watch')} for g in s.groups})
    def input_py(s):
        L = ['trick_vs.vs.set_enabled(False)']
        for g in s.groups:
            n = g['n']
            L += [f'{n} = trick.{"DRBinary" if g["fmt"] == "trk" else "DRAscii"}("{n}")', f'{n}.thisown = 0', f'{n}.set_cycle({sec(g["cycles"][0])})']
            L += [f'{n}.add_cycle({sec(c)})' for c in g['cycles'][1:]]
            L += [f'{n}.set_freq(trick.{dict(always="DR_Always", changes="DR_Changes", step="DR_Changes_Step")[g["freq"]]})']
            if g['setmax']: L += [f'{n}.set_max_buffer_size({g["max"]})']
            if g['lim']: L += [f'{n}.set_max_file_size({g["lim"]})']
            if s.ph != 60000: L += [f'{n}.set_phase({s.ph})']
            if s.cls != 'data_record': L += [f'{n}.set_job_class("{s.cls}")']
            if g['delim']: L += [f'{n}.set_delimiter("{g["delim"]}")']
            L += g['adds']
            L += [f'{n}.add_change_variable("recobj.r.{w}")' for w in g['watch']]
            L += [f'trick.add_data_record_group({n}, trick.{dict(thread="DR_Buffer", none="DR_No_Buffer", ring="DR_Ring_Buffer")[g["buf"]]})']
        L += [f'trick.vact("{c}")' for c in s.inp]
        return '\n'.join(L) + '\n'
def rank(s, j):
    """does a call of job j at time t come after the recording jobs of time t"""
    if j.c in ('end_of_frame', 'top_of_frame', 'initialization', 'default_data'): return 0
    a, b = X.SCHED.index(j.c), X.SCHED.index(s.cls)
    return int((a, j.ph) > (b, s.ph))
def gen(r, focus):
    s = DScn(); s.tic = r.choice([64, 128, 1000000]); s.frame = r.choice([4, 8, 16, 64, 24]); s.stop = r.choice([32, 48, 64, 40, r.randrange(10, 80)])
    s.cls = r.choice(['data_record', 'data_record', 'data_record', 'scheduled', 'effector', 'environment']); s.ph = r.choice([60000, 60000, 7, 300])
    s.groups = []; stress = focus == 'buffer' and r.random() < .6
    hot = r.sample(ALLV, 6)
    for k in range(r.choice([1, 2, 2, 3])):
        n = f'g{k}'; fmt = r.choice(['trk', 'csv'])
        vs, adds, names = [], [], []
        for _ in range(r.randrange(1, 7)):
            x = r.random()
            if x < .12: adds.append(f'{n}.add_variable("recobj.r.{r.choice(["nosuch", "a", "m", "str", "v", "m[1]", "x[99]", "p.q"])}")'); continue
            v = r.choice(hot) if r.random() < .6 else r.choice(ALLV)
            if v in vs: continue
            nm = 'recobj.r.' + v; sp = r.choice(['', '', ' ', '  '])
            if r.random() < .2: nm = f'al{len(vs)}.{r.choice("xyz")}'; adds.append(f'{n}.add_variable("{sp}recobj.r.{v}{sp}", "{nm}")')
            else: adds.append(f'{n}.add_variable("{sp}recobj.r.{v}{sp}")')
            vs.append(v); names.append(nm)
            if r.random() < .08 and len(vs) > 1:
                k2 = r.randrange(len(vs)); adds.append(f'{n}.remove_variable("recobj.r.{vs[k2]}")'); del vs[k2], names[k2]
        if stress and 'x[3]' not in vs: adds.append(f'{n}.add_variable("recobj.r.x[3]")'); vs.append('x[3]'); names.append('recobj.r.x[3]')
        freq = 'always' if r.random() < (.8 if focus == 'buffer' else .4) else r.choice(KIND)
        watch = [w for w in (r.sample(hot + ['i', 'd'], r.randrange(1, 4)) if freq != 'always' else []) if w not in ('b1', 'b2', 'b3')]
        buf = r.choice(BUF); small = r.random() < (.8 if focus == 'buffer' else .3)
        g = dict(n=n, fmt=fmt, vars=vs, names=names, adds=adds, freq=freq, watch=sorted(set(watch)), buf=buf, setmax=small,
                 max=r.choice([1, 2, 3, 4, 5, 7, 16, 50]) if small else 100000, lim=0, delim='',
                 cycles=[r.choice([1, 2, 3, 4, 5, 8, 12, 16, 24]) for _ in range(r.choice([1, 1, 2, 3]))])
        if r.random() < (.35 if focus == 'buffer' else .1): g['lim'] = r.choice([1, 50, 300, 1000, 2000, r.randrange(1, 4000)])
        if fmt == 'csv' and r.random() < .15: g['delim'] = r.choice([';', ' '])
        s.groups.append(g)
    cs = ['scheduled', 'environment', 'data_record', 'logging', 'effector', 'random', 'top_of_frame', 'end_of_frame']
    s.jobs_ = []
    for k in range(r.randrange(1, 5)):
        c = r.choice(cs); ph = r.choice([1, 60000, 60005, 65000]); ph = ph + 1 if (c, ph) == (s.cls, s.ph) else ph
        s.jobs_.append(Job('wr', f'w{k}', c, ph, U if 'frame' in c else r.choice([1, 2, 3, 4, 5, 7, 8, 16]), 0 if 'frame' in c else r.choice([0, 0, 0, 1, 3, 6])))
    s.objs.append(('wr', s.jobs_))
    nm = [g['n'] for g in s.groups]; used = sorted({v for g in s.groups for v in g['vars'] + g['watch']})
    s.tok = {}
    def setcmd():
        v = r.choice(used) if used and r.random() < .85 else r.choice(ALLV)
        if v == 'x[3]': v = 'i2'   # counted up by bursts
        if v == 'p[0]': v = r.choice(['p', 'i', 'i2', 'x[0]'])
        t, tok = value(r, v); s.tok[(v, t)] = tok; return f'set {v} {t}'
    for j in s.jobs_:
        n = s.stop // (s.frame if 'frame' in j.c else j.cy) + 2
        for k in range(1, n):
            x = r.random()
            if x < .5:
                for _ in range(r.choice([1, 1, 2, 4])): s.act(j.full, k, setcmd())
            elif x < .58 and focus != 'buffer' or x < .53: s.act(j.full, k, r.choice(['dron', 'droff', 'dron', 'droff', 'dronall', 'droffall']) + ' ' + r.choice(nm))
            elif x < .64: s.act(j.full, k, 'drnow ' + r.choice(nm))
            elif x < .67: s.act(j.full, k, f'drcycle {r.choice(nm)} {sec(r.choice([1, 2, 3, 4, 6, 8, 16]))}')
            elif x < .69: s.act(j.full, k, f'dradd {r.choice(nm)} {sec(r.choice([1, 2, 3, 4, 6, 8, 16]))}')
            elif x < .695: s.act(j.full, k, 'drrem ' + r.choice(nm))
            elif stress and x < .9:
                a = [g['n'] for g in s.groups if g['freq'] == 'always']
                if a: s.act(j.full, k, f'burst {r.choice(a)} 3 {r.choice([2, 9, 40, 100])} {r.choice([0, 1, 2, 5, 1])}')
    return s
def scenarios(focus, n, seed): return [gen(random.Random(f'dr/{focus}/{seed}/{i}'), focus) for i in range(n)]

# ------------------------------------------------------------------ log files
TT = {}
SIZE = {'char': ('c', 1), 'unsigned_char': ('B', 1), 'short': ('h', 2), 'unsigned_short': ('H', 2), 'int': ('i', 4), 'unsigned_int': ('I', 4), 'long': ('q', 8),
        'unsigned_long': ('Q', 8), 'float': ('f', 4), 'double': ('d', 8), 'long_long': ('q', 8), 'unsigned_long_long': ('Q', 8)}
def tunits(x):
    try: x = float(x)
    except (ValueError, TypeError): return -999
    v = x * U
    return round(v) if abs(v - round(v)) < 1e-6 and abs(v) < 1e9 else -999
def header(path):
    """types, names of the .header file"""
    r = []
    for l in open(path).read().split('\n')[1:]:
        if not l: continue
        f = l.split('\t'); r.append((f[1].strip(), f[2].strip(), f[3].strip()) if len(f) == 4 else ('?', '?', l))
    return r
def token(ctype, x):
    return ftok(x) if ctype == 'float' else dtok(x) if ctype == 'double' else str(x)
def read_csv(path, types, delim):
    b = open(path, 'rb').read(); lines = b.split(b'\n'); rest = len(lines.pop())
    sep = delim or ','
    head = lines[0].decode(errors='replace') if lines else ''
    cols = re.findall(r'(\S+) \{([^}]*)\}', head) if sep == ' ' else [re.fullmatch(r'(.*) \{([^}]*)\}', x).groups() if re.fullmatch(r'(.*) \{([^}]*)\}', x) else (x, '?') for x in head.split(sep)]
    rows, num = [], []
    for l in lines[1:]:
        f = l.decode(errors='replace')
        f = f.split() if sep == ' ' else f.split(sep)
        row = [tunits(f[0])]; nr = []
        for k, x in enumerate(f[1:], 1):
            ty = types[k] if k < len(types) else '?'
            try: row.append(str(ord(x)) if ty == 'char' else token(ty, x if ty in ('float', 'double') else int(x)))
            except (ValueError, TypeError): row.append('bad ' + x)
        rows.append(row)
        for x in f:
            try: nr.append(repr(float(x)))
            except ValueError: nr.append('')
        num.append(nr)
    return dict(names=[c[0] for c in cols], units=[c[1] for c in cols], rows=rows, hdr=len(lines[0]) + 1 if lines else 0, sizes=[len(l) + 1 for l in lines[1:]], rest=rest, num=num)
def read_trk(path, types):
    b = open(path, 'rb').read(); o = 14
    if b[:10] != b'Trick-10-L': return dict(names=['bad magic'], units=[], rows=[], hdr=0, sizes=[], rest=len(b), num=[])
    n, = struct.unpack_from('<i', b, 10); names, units, tt, sz = [], [], [], []
    for _ in range(n):
        L, = struct.unpack_from('<i', b, o); names.append(b[o + 4:o + 4 + L].decode()); o += 4 + L
        L, = struct.unpack_from('<i', b, o); units.append(b[o + 4:o + 4 + L].decode()); o += 4 + L
        t, z = struct.unpack_from('<ii', b, o); tt.append(t); sz.append(z); o += 8
    hdr = o; rows, num = [], []; w = sum(sz)
    while o + w <= len(b):
        row, nr = [], []; q = o
        for k in range(n):
            ty = types[k] if k < len(types) else '?'
            f, z = SIZE.get(ty, ('B', sz[k]))
            raw = b[q:q + sz[k]]; q += sz[k]
            x = struct.unpack('<' + f, raw)[0] if len(raw) == z else 'size'
            if f == 'c' and x != 'size': x = x[0]
            row.append(tunits(x) if k == 0 else token(ty, x) if x != 'size' else x)
            nr.append(repr(float(x)) if x != 'size' else '')
        rows.append(row); num.append(nr); o += w
    return dict(names=names, units=units, rows=rows, hdr=hdr, sizes=[w] * len(rows), rest=len(b) - o, num=num, tt=tt, sz=sz)
# sizes and type codes of the binary header are checked against the C types of the .header file
def read_group(d, g):
    n = g['n']; e = dict(e='file', g=n, names=[], units=[], types=[], hnames=[], hunits=[], rows=[], hdr=0, sizes=[], rest=0)
    try:
        h = header(f'{d}/log_{n}.header'); e.update(types=[x[0] for x in h], hnames=[x[2] for x in h], hunits=[x[1] for x in h])
        if g['fmt'] == 'trk': f = read_trk(f'{d}/log_{n}.trk', e['types'])
        else: f = read_csv(f'{d}/log_{n}.' + ('txt' if g['delim'] else 'csv'), e['types'], g['delim'])
        e.update(f)
    except (OSError, struct.error, UnicodeDecodeError, IndexError) as ex: e['names'] = [repr(ex)[:80]]
    return e
def normalise(s, rc, evs, d):
    out = [s.header()]; J = {j.full: j for j in s.jobs_}; cur = None
    for ev in evs:
        if ev['e'] == 'call': cur = ev['j']
        elif ev['e'] == 'act':
            c, a = ev['c'], ev['a']; t = X.units(ev['t'], ev['tv']); after = rank(s, J[cur]) if cur in J else 0
            b = dict(t=t, after=after, r=ev['r'])
            if c == 'set': out.append(dict(b, e='set', n=a[0], v=s.tok[(a[0], a[1])]))
            elif c in ('dron', 'droff'): out.append(dict(b, e=c[2:], g=a[0]))
            elif c in ('dronall', 'droffall'): out.append(dict(b, e=c[2:-3], g=''))
            elif c == 'drnow': out.append(dict(b, e='now', g=a[0]))
            elif c in ('drcycle', 'dradd'): out.append(dict(b, e=c[2:], g=a[0], cy=round(float(a[1]) * U)))
            elif c == 'drrem': out.append(dict(b, e='rem', g=a[0]))
            elif c == 'burst': out.append(dict(b, e='burst', g=a[0], n=f'x[{a[1]}]', cnt=int(a[2]), v0=ev.get('v0', -1)))
        elif ev['e'] == 'garbled': out.append(ev)
    out.append(dict(e='fin', t=s.stop))
    if rc: out.append(dict(e='died', rc=rc)); return out
    for g in s.groups: e = read_group(d, g); e.pop('num', None); e.pop('tt', None); e.pop('sz', None); out.append(e)
    out.append(dict(e='end'))
    return out
def run(d, exe, tag, items, par=16):
    res = X.run_all(d, exe, tag, [(n, s.text(), s.input_py()) for n, s in items], par=par, timeout=60)
    return [vlib.Trace(n, normalise(s, *res[n], os.path.join(vlib.B, 'runs', tag, n)), s) for n, s in items]
