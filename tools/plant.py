"""tools/plant.py DEFS.py [ID ...]: plant the bugs listed in DEFS.py (BUGS = [dict(id, property, file, old, new,
demo, needs, breaks)]) in a scratch copy of /repo, confirm tests and demonstration, run the check, and keep
them as /verif/seeded/<id>/. Development aid, no check uses it."""
import json, os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("PLANT_WORK", "/tmp/plant")
DEMO_SH = """#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 BROWSER=true MPLBACKEND=Agg
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD/Python/research:$PWD/Python/research/scripts/demo"
scratch=$(mktemp -d) || exit 3
trap 'rm -rf "$scratch"' EXIT
cd "$scratch" || exit 3
timeout 120 /opt/venv/bin/python "$here/demo.py"
"""
ns = {}
exec(open(sys.argv[1]).read(), ns)
env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", BROWSER="true")
env.pop("VERIF_REPO", None)
shutil.rmtree(W, ignore_errors=True)
shutil.copytree("/repo", W, symlinks=True)
for b in ns["BUGS"]:
    if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]:
        continue
    subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
    d = os.path.join(VERIF, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.sh", "w").write(DEMO_SH)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    clean = subprocess.run(["bash", d + "/demo.sh"], cwd=W, env=env, capture_output=True, text=True)
    edits = b.get("edits") or [(b["file"], b["old"], b["new"])]
    bad = False
    for f, old, new in edits:
        f = "Python/research/scripts/" + f
        s = open(os.path.join(W, f)).read()
        if s.count(old) != 1:
            print(b["id"], "OLD TEXT occurs", s.count(old), f); bad = True; break
        open(os.path.join(W, f), "w").write(s.replace(old, new))
    if bad:
        continue
    diff = subprocess.run(["git", "-C", W, "diff"], capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "scripts/test",
                        "--deselect", "scripts/test/relnet/test_graph_components.py::TestDirectedRelation::test_repr"],
                       cwd=W + "/Python/research", env=env, capture_output=True, text=True)
    dirty = subprocess.run(["bash", d + "/demo.sh"], cwd=W, env=env, capture_output=True, text=True)
    r = subprocess.run([VERIF + "/check", b["property"]], env=dict(env, VERIF_REPO=W), capture_output=True, text=True)
    caught = r.returncode == 1 and f"VIOLATION property={b['property']} " in r.stdout
    ok = t.returncode == 0 and clean.returncode == 0 and dirty.returncode != 0
    print(f"{b['id']}: tests {'pass' if t.returncode == 0 else 'FAIL'}, demo {clean.returncode}/{dirty.returncode}, "
          f"{'VALID' if ok else 'INVALID'}, {'CAUGHT' if caught else 'MISSED rc=%d' % r.returncode}: {r.stdout.splitlines()[0][:150] if r.stdout else r.stderr[-300:]}", flush=True)
    if not ok:
        print(t.stdout[-300:] if t.returncode else "", clean.stderr[-400:], dirty.stdout[-200:], dirty.stderr[-200:])
shutil.rmtree(W, ignore_errors=True)
