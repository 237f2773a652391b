"""Dev helper: mkseed.seed(id, property, file, old, new, needs, what, scn, input, expect) writes seeded/<id>/ with a demonstration that
runs a scenario on a scratch build of the scenario-driven sim."""
import os, subprocess, json, shutil
V='/verif'
DEMO='''#!/bin/bash
# Runs one scenario on a simulation built in a scratch directory and compares the recorded job calls.
H=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export TRICK_HOME=/repo; unset VERIF_SCN VERIF_TRACE MAKEFLAGS
[ -x /usr/lib/ccache/g++ ] && export PATH=/usr/lib/ccache:$PATH CCACHE_DIR=$W/ccache
cp -r "$H/sim" "$W/SIM"; cd "$W/SIM" || exit 3
/repo/bin/trick-CP > "$W/cp.log" 2>&1 || { tail "$W/cp.log"; exit 3; }
mkdir RUN; cp "$H/input.py" RUN
VERIF_SCN=$H/scn.txt VERIF_TRACE=$W/trace timeout 60 ./S_main*.exe RUN/input.py > "$W/out" 2>&1
echo "exit status $?" >> "$W/out"
python3 "$H/expect.py" "$W/trace" "$W/out"
'''
EXPECT='''import sys, json
# the calls this scenario prescribes: job @ time (1/64 s)
WANT = %s
got = []
for l in open(sys.argv[1]):
    e = json.loads(l)
    if e["e"] == "call" and %s: got.append("%%s@%%g" %% (e["j"], e["t"] * 64.0 / e["tv"]))
    if e["e"] == "instr": got.append("%%s:%%s" %% (e["j"], e["tgt"]))
if got != WANT:
    print("got ", got); print("want", WANT); sys.exit(1)
print("ok")
'''
def patch(d, edits):
    for f, old, new in edits:
        p='/repo/'+f; s=open(p).read()
        assert s.count(old)==1, (f, s.count(old), old)
        open(p,'w').write(s.replace(old,new))
    o=subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
    subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
    open(d+'/patch.diff','w').write(o)
def meta(d, pid, needs, what):
    json.dump(dict(property=pid, needs=needs, what_it_breaks=what), open(d+'/meta.json','w'), indent=1)
def seed(id, pid, edits, needs, what, scn, inp, want, filt='True'):
    d=f'{V}/seeded/{id}'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    patch(d, edits); meta(d, pid, needs, what)
    shutil.copytree(V+'/sims/SIM_verif', d+'/sim')
    open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
    open(d+'/scn.txt','w').write(scn); open(d+'/input.py','w').write(inp)
    open(d+'/expect.py','w').write(EXPECT%(json.dumps(want), filt))
def seed_prog(id, pid, edits, needs, what, files, demo):
    d=f'{V}/seeded/{id}'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    patch(d, edits); meta(d, pid, needs, what)
    for n,t in files.items(): open(d+'/'+n,'w').write(t)
    open(d+'/demo.sh','w').write(demo); os.chmod(d+'/demo.sh',0o755)
