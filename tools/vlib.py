"""Common machinery: build /repo, build sims and drivers, run TLC on specifications and traces, report verdicts."""
import os, sys, json, time, subprocess, hashlib, shutil, fcntl, re, random, glob
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
B = os.path.join(V, 'build')
SPEC = os.path.join(V, 'spec')
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
NCPU = os.cpu_count() or 4
T0 = time.time()
JAR = '/opt/veriftools/tla/tla2tools.jar'

class CheckError(Exception):
    """The check itself failed (build, harness, TLC): no verdict."""

def log(*a):
    print(f'[{time.time()-T0:6.1f}s]', *a, flush=True)

_cc = None
def _ccache():
    """own copy of the compiler cache: nothing in /opt/vp is touched"""
    global _cc
    if _cc is None:
        d = os.path.join(B, 'ccache')
        with Lock('ccache'):
            if not os.path.isdir(d):
                t = d + '.tmp'; shutil.rmtree(t, ignore_errors=True)
                if os.path.isdir('/opt/vp/ccache'): subprocess.run(['cp', '-a', '--reflink=auto', '/opt/vp/ccache', t], check=False)
                os.makedirs(t, exist_ok=True)
                os.replace(t, d)
        _cc = d
    return _cc

def env(**kw):
    e = dict(os.environ)
    for k in ('MAKEFLAGS', 'MFLAGS', 'VERIF_SCN', 'VERIF_TRACE', 'LC_CTYPE', 'PYTHONUNBUFFERED'): e.pop(k, None)
    e.update(HOME='/root', LANG='C.UTF-8', LC_ALL='C.UTF-8', USER='root', LOGNAME='root',
             PATH='/usr/lib/ccache:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
             CCACHE_DIR=_ccache(), CCACHE_COMPILERCHECK='content', CCACHE_NOSTATS='1', TRICK_HOME=REPO, PYTHONDONTWRITEBYTECODE='1')
    e.update(kw)
    return e

def sh(cmd, timeout=800, cwd=None, e=None, logf=None):
    out = open(logf, 'wb') if logf else subprocess.PIPE
    try:
        p = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=e or env(), stdout=out,
                           stderr=subprocess.STDOUT, timeout=timeout, stdin=subprocess.DEVNULL)
        return p.returncode, (p.stdout or b'').decode(errors='replace') if not logf else ''
    except subprocess.TimeoutExpired:
        return 124, 'TIMEOUT'
    finally:
        if logf: out.close()

# ------------------------------------------------------------------ builds
def _hash_paths(paths, extra=''):
    h = hashlib.sha1(extra.encode())
    for p in sorted(paths):
        try:
            st = os.lstat(p)
            h.update(p.encode())
            if os.path.islink(p): h.update(os.readlink(p).encode())
            elif os.path.isfile(p):
                with open(p, 'rb') as f: h.update(f.read())
        except OSError: h.update(b'?')
    return h.hexdigest()

def repo_hash():
    rc, o = sh(['git', '-c', 'safe.directory=/repo', '-C', REPO, 'ls-files', '-co', '--exclude-standard', '-z'])
    if rc: raise CheckError('git ls-files failed: ' + o)
    return _hash_paths([os.path.join(REPO, f) for f in o.split('\0') if f])

LIBS = ['bin/trick-ICG'] + ['lib/lib%s.a' % l for l in
        ('trick', 'trick_pyip', 'er7_utils', 'trick_mm', 'trick_comm', 'trick_math', 'trick_units', 'trick_connection_handlers')]

BUILD = r'''
cd /repo || exit 1
CONFIG=share/trick/makefiles/config_user.mk
git -c safe.directory=/repo clean -fdXq -e '!/'$CONFIG -- \
    bin include lib lib64 libexec share test trick_sims trick_source trick_test trickops_logs
if [ ! -s $CONFIG ] || [ configure -nt $CONFIG ] || [ $CONFIG.in -nt $CONFIG ]; then
    CC=/usr/lib/ccache/gcc CXX=/usr/lib/ccache/g++ ./configure --enable-java=no || exit 1
fi
make -j"$(nproc)" || exit 1
'''

class Lock:
    def __init__(self, name): self.p = os.path.join(B, name + '.lock')
    def __enter__(self):
        os.makedirs(B, exist_ok=True)
        self.f = open(self.p, 'w'); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

_rh = None
def build_repo():
    """Builds /repo's current working tree in place (git-ignored products only). Skipped when this exact tree,
    by content, is what the existing products were built from."""
    global _rh
    with Lock('repo'):
        h = _rh = repo_hash()
        stamp = os.path.join(B, 'repo.stamp')
        libs = [os.path.join(REPO, l) for l in LIBS]
        sig = lambda: h + ' ' + ' '.join(str(os.stat(l).st_mtime_ns) if os.path.exists(l) else '-' for l in libs)
        if os.path.exists(stamp) and open(stamp).read() == sig(): return h
        if os.path.exists(stamp): os.unlink(stamp)
        lf = os.path.join(B, 'repo_build.log')
        for attempt in (1, 2):
            t = time.time()
            rc, _ = sh(['bash', '-c', BUILD], timeout=800, logf=lf)
            if rc == 0 and all(os.path.exists(l) and os.path.getsize(l) for l in libs): break
        else:
            raise CheckError('building /repo failed, see ' + lf + '\n' + tail(lf))
        open(stamp, 'w').write(sig())
        log(f'built /repo in {time.time()-t:.1f}s')
        return h

def tail(p, n=25):
    try: return '\n'.join(open(p, errors='replace').read().splitlines()[-n:])
    except OSError: return ''

def build_sim(name):
    """trick-CP of sims/<name> in build/sims/<name>; returns (dir, exe)."""
    h = build_repo()
    with Lock('sim_' + name):
        src = os.path.join(V, 'sims', name)
        d = os.path.join(B, 'sims', name)
        files = [os.path.join(r, f) for r, _, fs in os.walk(src) for f in fs]
        sig = _hash_paths(files, h) + str(os.stat(os.path.join(REPO, 'lib/libtrick.a')).st_mtime_ns)
        stamp = os.path.join(B, 'sims', name + '.stamp')
        exes = glob.glob(os.path.join(d, 'S_main_*.exe'))
        if os.path.exists(stamp) and open(stamp).read() == sig and exes: return d, exes[0]
        for attempt in (1, 2):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copytree(src, d)
            t = time.time()
            rc, _ = sh([os.path.join(REPO, 'bin/trick-CP')], cwd=d, e=env(MAKEFLAGS=f'-j{NCPU}'), timeout=800, logf=os.path.join(B, 'sims', name + '.log'))
            exes = glob.glob(os.path.join(d, 'S_main_*.exe'))
            if rc == 0 and exes: break
        else:
            raise CheckError(f'trick-CP of {name} failed\n' + tail(os.path.join(B, 'sims', name + '.log')))
        open(stamp, 'w').write(sig)
        log(f'built {name} in {time.time()-t:.1f}s')
        return d, exes[0]

LINK = ('-L/repo/lib -L/repo/lib64 -Wl,--start-group -ltrick_mm -ltrick_units -ltrick -ltrick_pyip -ltrick_connection_handlers '
        '-ltrick_comm -ltrick_math -Wl,--end-group')

def mkvar(name):
    """value of a make variable as trick's makefiles define it"""
    mk = 'include /repo/share/trick/makefiles/Makefile.common\nvp:\n\t@echo $(' + name + ')\n'
    p = os.path.join(B, 'mkvar.mk'); open(p, 'w').write(mk)
    rc, o = sh(['make', '-s', '-f', p, 'vp'], cwd=B)
    if rc: raise CheckError('make variable ' + name + ': ' + o)
    return o.strip().splitlines()[-1] if o.strip() else ''

def build_driver(name, srcs, flags='', link=None, libs=True, cxx='g++', std=''):
    """compiles /verif/harness sources against /repo (its headers and, if libs, its libraries)"""
    h = build_repo() if libs else repo_hash()
    with Lock('drv_' + name):
        out = os.path.join(B, 'drv', name)
        os.makedirs(os.path.dirname(out), exist_ok=True)
        srcs = [s if s.startswith('/') else os.path.join(V, 'harness', s) for s in srcs]
        inc = f'-I{V}/harness -I/repo/include -I/repo/trick_source -I/usr/include/udunits2'
        if link is None:
            link = (LINK + ' ' + mkvar('PYTHON_LIB') + ' ' + mkvar('TRICK_EXEC_LINK_LIBS')) if libs else ''
        cmd = f'{cxx} -g -O1 -w {std} {inc} {flags} {" ".join(srcs)} -o {out}.tmp {link}'
        sig = _hash_paths(srcs + glob.glob(os.path.join(V, 'harness', '*.h*')), h + cmd)
        if os.path.exists(out) and os.path.exists(out + '.stamp') and open(out + '.stamp').read() == sig: return out
        rc, o = sh(cmd, timeout=600)
        if rc: raise CheckError(f'compiling driver {name} failed:\n{cmd}\n{o[-3000:]}')
        os.replace(out + '.tmp', out)
        open(out + '.stamp', 'w').write(sig)
        return out

def build_icg_driver(name, srcs, header, flags=''):
    """a driver whose types (harness/<header>) are described to the memory manager by Trick's interface code generator"""
    build_repo()
    d = os.path.join(B, 'icg', name); os.makedirs(d, exist_ok=True)
    with Lock('icg_' + name):
        shutil.rmtree(os.path.join(d, 'io_src'), ignore_errors=True); os.makedirs(os.path.join(d, 'io_src'))
        shutil.copy(os.path.join(V, 'harness', header), d)
        rc, o = sh(['/repo/bin/trick-ICG', '-f', '-sim_services', '-o', './io_src', '-I/repo/include', header], cwd=d, timeout=200)
        io = os.path.join(d, 'io_src', 'io_' + os.path.splitext(header)[0] + '.cpp')
        if rc or not os.path.exists(io): raise CheckError('interface code generation failed:\n' + o[-2000:])
    return build_driver(name, srcs + [io], flags='-rdynamic ' + flags)

# ------------------------------------------------------------------ TLC
class TLCResult: pass

def tlc(module, cfg=None, e=None, workers=1, timeout=600, heap='2g', extra=(), tag=None):
    """Runs TLC on spec/<module>.tla with spec/<cfg>.cfg. Result: .ok, .kind in
    ok|invariant|action|postcondition|deadlock|temporal|error, .out, .generated, .distinct, .depth."""
    cfg = cfg or module
    tag = tag or f'{module}_{os.getpid()}_{time.time_ns()}'
    meta = os.path.join(B, 'tlc', tag)
    os.makedirs(meta, exist_ok=True)
    cp = JAR + ':' + ':'.join(sorted(glob.glob('/opt/veriftools/tla/*.jar')))
    cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss400m', '-cp', cp, 'tlc2.TLC', '-workers', str(workers),
           '-metadir', meta, '-config', os.path.join(SPEC, cfg + '.cfg'), '-noGenerateSpecTE'] + list(extra) + [os.path.join(SPEC, module + '.tla')]
    ee = env(); ee['PATH'] = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    ee.update(e or {})
    t = time.time()
    rc, out = sh(cmd, timeout=timeout, cwd=SPEC, e=ee)
    shutil.rmtree(meta, ignore_errors=True)
    r = TLCResult(); r.rc = rc; r.out = out; r.wall = time.time() - t
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    r.generated, r.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    m = re.search(r'depth of the complete state graph search is (\d+)', out)
    r.depth = int(m.group(1)) if m else 0
    if rc == 0 and 'No error has been found' in out: r.kind = 'ok'
    elif rc == 0 and '-simulate' in extra: r.kind = 'ok'
    elif 'is violated' in out and 'Invariant' in out: r.kind = 'invariant'
    elif 'is violated' in out and 'Action property' in out: r.kind = 'action'
    elif re.search(r'[Pp]ost-?condition.* (is )?violated|is false|POSTCONDITION', out) and rc != 0 and 'ostcondition' in out: r.kind = 'postcondition'
    elif 'Deadlock reached' in out: r.kind = 'deadlock'
    elif 'Temporal properties were violated' in out: r.kind = 'temporal'
    else: r.kind = 'error'
    r.ok = r.kind == 'ok'
    return r

class Trace:
    """A recorded execution: header event (dict) + events; meta: what is needed to re-run it."""
    def __init__(self, name, events, meta=None):
        self.name, self.events, self.meta = name, events, meta

def _clip(x):
    """TLC integers have 32 bits and the JSON reader wraps silently: a number outside stays outside every valid range"""
    if isinstance(x, bool) or isinstance(x, str) or x is None: return x
    if isinstance(x, int): return max(-2100000000, min(2100000000, x))
    if isinstance(x, dict): return {k: _clip(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [_clip(v) for v in x]
    return x

def _write(traces, path):
    with open(path, 'w') as f:
        for t in traces:
            for ev in t.events: f.write(json.dumps(_clip(ev), separators=(',', ':')) + '\n')

HANGS = 0
def hung():
    global HANGS
    HANGS += 1
def limit(t):
    """time limit for one execution: shorter once several have hung (none does on a sound tree)"""
    return t if HANGS < 8 else min(t, 10)

class Verdict:
    def __init__(self): self.states = self.transitions = self.validated = self.events = 0; self.rejected = []

def validate(module, traces, cfg=None, tag='t', timeout=500, par=None, heap='1500m', chunk=None, extra_env=None):
    """Checks that every trace is a behaviour of the specification: traces are concatenated into a few files (the trace
    specification starts afresh at each header event) and checked in parallel. The trace specification prints
    <<"REACHED", n>> (n = number of lines explained) in its postcondition."""
    v = Verdict()
    if not traces: return v
    par = par or NCPU
    d = os.path.join(B, 'traces'); os.makedirs(d, exist_ok=True)
    nchunk = max(1, min(par, len(traces)))
    chunks = [traces[i::nchunk] for i in range(nchunk)]
    def run(i, ts):
        """returns list of (trace, line index inside trace, reason)"""
        rej = []
        queue = list(ts)
        k = 0
        while queue:
            p = os.path.join(d, f'{tag}_{os.getpid()}_{i}_{k}.ndjson'); k += 1
            _write(queue, p)
            n = sum(len(t.events) for t in queue)
            r = tlc(module, cfg, e=dict(TRACE=p, **(extra_env or {})), timeout=timeout, heap=heap)
            m = re.search(r'"REACHED", (\d+)', r.out)
            v.states += r.distinct; v.transitions += r.generated
            if r.kind == 'ok' and m and int(m.group(1)) == n:
                v.validated += len(queue); v.events += n; os.unlink(p); break
            beh = r.kind == 'error' and 'The behavior up to this point' in r.out and not re.search('StackOverflow|OutOfMemory', r.out)    # an event the specification cannot even be evaluated on
            if beh or (r.kind in ('postcondition', 'invariant', 'action') and (m or r.kind != 'postcondition')):
                if m: reached = int(m.group(1))
                else:
                    ls = re.findall(r'/\\ l = (\d+)', r.out)
                    reached = int(ls[-1]) - 1 if ls else 0
                # find trace holding line reached+1
                acc = 0
                for ti, t in enumerate(queue):
                    if acc + len(t.events) > reached: break
                    acc += len(t.events)
                inv = re.search(r'(?:Invariant|Action property) (\S+) (?:is|was|of)', r.out)
                reason = inv.group(1) if inv and r.kind not in ('postcondition', 'error') else 'no specification step explains it'
                rej.append((t, reached - acc, reason, r.out))
                v.validated += ti; v.events += acc
                queue = queue[ti + 1:] if len(rej) < 8 else []     # enough is known
                continue
            if r.kind == 'error' or r.rc == 124:
                # a failure inside evaluation of the spec
                raise CheckError(f'TLC failed on {module} ({p}):\n' + r.out[-3000:])
            raise CheckError(f'TLC: unexpected outcome {r.kind} on {module} ({p}):\n' + r.out[-3000:])
        return rej
    with ThreadPoolExecutor(par) as ex:
        for rej in ex.map(lambda a: run(*a), enumerate(chunks)): v.rejected += rej
    return v

def model_check(module, cfg=None, timeout=600, workers=None, heap='4g', expect='ok'):
    r = tlc(module, cfg, workers=workers or NCPU, timeout=timeout, heap=heap)
    if r.kind != expect:
        raise CheckError(f'model checking {module}/{cfg or module}: {r.kind} (expected {expect})\n' + r.out[-4000:])
    return r

# ------------------------------------------------------------------ reporting
KNOWN = os.path.join(V, 'KNOWN_FINDINGS')
def known_findings(pid):
    """lines: 'known: property=<id> key=<key> <what fails>' ; 'fixed: property=<id> <commit> <what failed>'"""
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid: r[m.group(2)] = m.group(3)
    return r

class Report:
    def __init__(self, pid, level='model_checking'):
        self.pid, self.level = pid, level
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.violations = []
        self.known = known_findings(pid)
    def add_model(self, name, r):
        self.cov['states'] += r.distinct; self.cov['transitions'] += r.generated
        self.cov.setdefault('models', {})[name] = dict(distinct=r.distinct, generated=r.generated, depth=r.depth)
    def add_traces(self, name, v):
        self.cov['states'] += v.states; self.cov['transitions'] += v.transitions
        self.cov['traces_validated_against_impl'] += v.validated
        self.cov.setdefault('trace_events', 0); self.cov['trace_events'] += v.events
    def sample(self, s):
        if len(self.cov['samples']) < 4: self.cov['samples'].append(s)
    def violation(self, what, replay, key=None):
        if key is not None and key in self.known:
            print(f'KNOWN-FINDING: property={self.pid} {self.known[key]}', flush=True); return
        self.violations.append((what, replay))
    def finish(self):
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        ev = dict(property=self.pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - T0, 1), violations=len(self.violations))
        json.dump(ev, open(os.path.join(V, 'evidence', self.pid + '.json'), 'w'), indent=1)
        for what, replay in self.violations[:5]:
            print('  ' + what)
        for what, replay in self.violations[:5]:
            print(f'VIOLATION property={self.pid} replay={replay}', flush=True)
        log(f'{self.pid}: {"VIOLATED" if self.violations else "held"}; {self.cov["traces_validated_against_impl"]} traces validated, {self.cov["states"]} states')
        return 1 if self.violations else 0

def replay_file(pid, name, obj):
    d = os.path.join(B, 'replay'); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f'{pid}_{name}.json')
    json.dump(obj, open(p, 'w'), indent=1)
    return p

def main(fn):
    """fn(pid) -> exit code"""
    try:
        rc = fn(sys.argv[1] if len(sys.argv) > 1 else None)
    except CheckError as ex:
        print('CHECK ERROR:', ex, flush=True); rc = 2
    except Exception:
        import traceback; traceback.print_exc(); rc = 2
    sys.stdout.flush()
    os._exit(rc)
