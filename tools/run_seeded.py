"""Development only: applies each planted bug to a scratch copy of /repo, runs the quick check of its property there, and
(with --design, all bugs) rewrites section 5 of DESIGN.md. No check uses this."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
args = [a for a in sys.argv[1:] if not a.startswith("--")]


def run_bug(d):
    p = f"/verif/seeded/{d}"
    meta = json.load(open(p + "/meta.json"))
    tmp = tempfile.mkdtemp(prefix="seeded-")
    try:
        repo = tmp + "/repo"
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        subprocess.run(["git", "-C", repo, "apply", p + "/patch.diff"], check=True)
        t = time.time()
        r = subprocess.run(["./check.sh", meta["property"]], cwd="/verif", capture_output=True, text=True,
                           env={**os.environ, "VERIF_SEED": "1", "VERIF_TIER": "quick", "VERIF_REPO": repo})
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + meta["property"])]
        ok = r.returncode == 1 and bool(v)
        scen = re.search(r"C\d\d-(\w+)-\d+-\d+\.json", v[0]) if v else None
        scen = scen[1] if scen else ""
        print(d, meta["property"], r.returncode, "caught" if ok else "MISSED", scen, f"{time.time() - t:.1f}s", flush=True)
        if r.returncode not in (0, 1):
            print(r.stdout[-800:], r.stderr[-800:])
        return d, meta, ok, scen
    finally:
        shutil.rmtree(tmp)


with ThreadPoolExecutor(2) as ex:
    rows = list(ex.map(run_bug, [d for d in sorted(os.listdir("/verif/seeded")) if not args or d in args]))
print(sum(r[2] for r in rows), "of", len(rows), "caught")
if "--design" in sys.argv and not args:
    s = open("/verif/DESIGN.md").read().split("\n## 5. ")[0].rstrip() + "\n\n## 5. Planted bugs\n\n"
    s += ("Each lies in `seeded/<id>/` with a demonstration; none was ever committed in `/repo`. The table tells which scenario "
          "of the property's quick check (seed 1) reported it first.\n\n| bug | breaks | needs | reported by |\n|---|---|---|---|\n")
    one = lambda x: " ".join(str(x).split()).replace("|", "\\|")
    for d, m, ok, scen in rows:
        s += f"| {d} | {one(m['what_it_breaks'])} | {one(m['needs'])} | {m['property'] + ' ' + scen if ok else '**not caught**'} |\n"
    open("/verif/DESIGN.md", "w").write(s)
