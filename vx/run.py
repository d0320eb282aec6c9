import sys, os, glob, subprocess
sys.path.insert(0, "/verif/vx")
from gen import *
from plan import PLAN
def main():
    ov = Overlay()
    for f in sorted(glob.glob("/verif/contracts/*.vrs")): ov.load(f)
    mods = sys.argv[1].split(",") if len(sys.argv) > 1 and sys.argv[1] else None
    plan = PLAN
    g, txt = build("/repo", ov, plan)
    os.makedirs("/tmp/vxo",exist_ok=True); out = "/tmp/vxo/vx.rs"
    open(out, "w").write(txt)
    print("lost:", g.lost, "new:", g.new_fns, "rewrites:", g.rewrites, "dropped:", g.dropped)
    cmd = ["verus", out, "--crate-name", "vx", "--multiple-errors", "10"] 
    if mods:
        for m in mods: cmd += ["--verify-module", m]
    cmd += sys.argv[2:]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd="/tmp/vxo")
    
    lines=p.stdout.split("\n"); out=[]; keep=0
    for l in lines:
        if l.startswith("error") or l.startswith("verification results") or 'panicked' in l: out.append(l); keep=9
        elif l.startswith("warning") or l.startswith("note:"): keep=0
        elif keep>0 and l.strip() not in ("|",""): out.append(l); keep-=1
    print("\n".join(out)[:9000])
main()
