#!/usr/bin/env python3
"""plant.py <specs.py> [ids...]: write /verif/seeded/<id>/ from specs and validate each in a scratch copy of /repo.
A spec: dict(id, property, needs, breaks, edits=[(file, old, new)], main=rust source, demo=optional script)."""
import sys, os, json, subprocess, shutil, runpy
specs = runpy.run_path(sys.argv[1])["SPECS"]
only = set(sys.argv[2:])
S = "/tmp/plant/repo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if not os.path.isdir(S):
    os.makedirs("/tmp/plant", exist_ok=True); sh(f"cp -a /repo {S}")
sh(f"git -C {S} fetch -q /repo HEAD && git -C {S} reset -q --hard FETCH_HEAD")
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
os.environ.update(DEMO_TARGET="/tmp/plant/demo-target")
TEST = "cd %s; export PATH=/root/.cargo/bin:$PATH; . /opt/vp/env.sh; (timeout -k 10 400 cargo test --workspace --all-features --no-fail-fast --offline --lib --bins --tests -- --test-threads 8; timeout -k 10 400 cargo test --workspace --all-features --no-fail-fast --offline --doc -- --test-threads 8) > /tmp/plant/test.log 2>&1; python3 /opt/vp/results.py /tmp/plant/out.json 'cargo:/tmp/plant/test.log'" % S
for sp in specs:
    if only and sp["id"] not in only: continue
    d = f"/verif/seeded/{sp['id']}"; os.makedirs(d, exist_ok=True)
    open(d+"/main.rs", "w").write(sp["main"].lstrip())
    open(d+"/demo.sh", "w").write(sp.get("demo") or open("/verif/tools/seedlib/demo.sh").read()); os.chmod(d+"/demo.sh", 0o755)
    json.dump({"property": sp["property"], "needs": sp["needs"], "what_it_breaks": sp["breaks"]}, open(d+"/meta.json", "w"), indent=1)
    sh(f"git -C {S} checkout -q -- .")
    r0 = sh(f"timeout 300 bash {d}/demo.sh", cwd=S)
    bad = False
    for f, o, n in sp["edits"]:
        p = f"{S}/{f}"; s = open(p).read()
        if s.count(o) != 1 and not sp.get("first"): print(sp["id"], "EDIT COUNT", s.count(o), f); bad = True; break
        open(p, "w").write(s.replace(o, n, 1))
    if bad: continue
    open(d+"/patch.diff", "w").write(subprocess.run(["git","-C",S,"diff"],stdout=subprocess.PIPE,text=True).stdout)
    r1 = sh(f"timeout 300 bash {d}/demo.sh", cwd=S)
    lost = "skipped"
    if r0.returncode == 0 and r1.returncode not in (0, 2):
        sh(TEST)
        try: lost = sorted(stable - set(json.load(open("/tmp/plant/out.json"))["passed"]))
        except Exception as e: lost = repr(e)
    sh(f"git -C {S} checkout -q -- .")
    print(sp["id"], "clean", r0.returncode, "patched", r1.returncode, "lost", lost, flush=True)
    if r0.returncode: print(r0.stdout[-1500:])
    if r1.returncode in (0, 2): print("PATCHED OUT", r1.stdout[-1500:])
