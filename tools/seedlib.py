"""
Planting tools (not used by any check).

  seedlib.plant(id, prop, edits, demo, needs, breaks)   makes /verif/seeded/<id> after confirming it in a scratch copy
  python3 tools/seedlib.py catch [ids...]               runs the check of each planted bug's property against a scratch copy
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = "8fb0a98"
STABLE = None


def sh(cmd, cwd=None, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def env(copy, stubs=True):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", GIT_CONFIG_GLOBAL="/dev/null", PYTHONHASHSEED="0", LC_ALL="C.UTF-8")
    e.pop("PYTHONPATH", None)
    if stubs:
        e["PYTHONPATH"] = f"{V}/stubs:{copy}"
    else:
        e["PYTHONPATH"] = copy
    return e


def tests(copy, full=True):
    rc, out = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], cwd=copy, env=env(copy))
    return sorted(ln.split(" ")[1] for ln in out.splitlines() if ln.startswith(("FAILED", "ERROR")))


def blame_ok(patch):
    """Removed lines must be lines of the original repository."""
    f, old, bad, n = None, 0, [], 0
    for ln in patch.splitlines():
        if ln.startswith("--- a/"):
            f = ln[6:]
        elif ln.startswith("@@"):
            old = int(re.match(r"@@ -(\d+)", ln).group(1))
        elif ln.startswith("-") and not ln.startswith("---"):
            rc, out = sh(["git", "blame", "-l", "-s", f"-L{old},{old}", "HEAD", "--", f], cwd="/repo")
            n += 1
            root = sh(["git", "rev-list", "--max-parents=0", "HEAD"], cwd="/repo")[1].strip()
            if not out.lstrip("^").startswith(root[:30]) and ln[1:].strip():
                bad.append(f"{f}:{old}: {ln}")
            old += 1
        elif ln.startswith(" "):
            old += 1
    return n, bad


def plant(id_, prop, edits, demo, needs, breaks, full=True, extra=None):
    copy = tempfile.mkdtemp(prefix="seed_")
    try:
        sh(["cp", "-a", "/repo/.", copy])
        for f, old, new in edits:
            p = os.path.join(copy, f if f.startswith("scripts/") else "conda_recipe_manager/" + f)
            s = open(p, encoding="utf-8").read()
            assert s.count(old) == 1, f"{id_}: {f}: {s.count(old)} matches of {old!r}"
            open(p, "w", encoding="utf-8").write(s.replace(old, new))
        _, patch = sh(["git", "diff"], cwd=copy)
        n, bad = blame_ok(patch)
        if bad:
            print(id_, "NOTE changes lines of our own commits:", bad, f"({n} removed lines)")
            if len(bad) == n:
                print(id_, "REJECTED: no original line changed")
                return False
        d = os.path.join(V, "seeded", id_)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        open(os.path.join(d, "demo.py"), "w").write(demo.lstrip("\n"))
        shutil.copytree(f"{V}/stubs", os.path.join(d, "stubs"), ignore=shutil.ignore_patterns("__pycache__"))
        for name, text in (extra or {}).items():
            open(os.path.join(d, name), "w").write(text)
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write(
                '#!/bin/bash\n# Run with cwd = the repository. Exit 0: as it should be.\nhere=$(dirname "$(realpath "$0")")\n'
                'export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg LC_ALL=C.UTF-8 GIT_CONFIG_GLOBAL=/dev/null PYTHONHASHSEED=0\n'
                'export PYTHONPATH="$here/stubs:$PWD"\nexec /opt/venv/bin/python "$here/demo.py"\n'
            )
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        with open(os.path.join(d, "meta.json"), "w") as f:
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, f, indent=1)
            f.write("\n")
        e = env(copy, False)
        rc1, out1 = sh(["bash", os.path.join(d, "demo.sh")], cwd="/repo", env=e)
        rc2, out2 = sh(["bash", os.path.join(d, "demo.sh")], cwd=copy, env=e)
        ok = rc1 == 0 and rc2 != 0
        failed = tests(copy) if ok and full else []
        known = {"test_usage", "test_convert_single_file", "test_patch_cli_invalid_json_patch_operation"}
        new = [t for t in failed if t.split("::")[-1] not in known]
        ok = ok and not new
        print(id_, "OK" if ok else "REJECTED", "demo clean/patched:", rc1, rc2, "tests newly failing:", new)
        if not ok:
            print("  clean:", out1[-600:], "\n  patched:", out2[-600:])
            shutil.rmtree(d)
        else:
            print("  patched demo says:", out2.strip().splitlines()[-1][:200] if out2.strip() else "")
        return ok
    finally:
        shutil.rmtree(copy)


def catch(ids, seed="1", tier="quick"):
    for i in ids:
        d = os.path.join(V, "seeded", i)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        copy = tempfile.mkdtemp(prefix="seed_")
        try:
            sh(["cp", "-a", "/repo/.", copy])
            rc, out = sh(["git", "apply", os.path.join(d, "patch.diff")], cwd=copy)
            if rc:
                print(i, "patch does not apply", out)
                continue
            e = dict(os.environ, CRM_REPO=copy, VERIF_SEED=seed, VERIF_TIER=tier)
            rc, out = sh([sys.executable, "check.py", prop], cwd=V, env=e, timeout=1500)
            v = [x for x in out.splitlines() if x.startswith("VIOLATION")]
            lines = out.splitlines()
            first = next((lines[k + 1] for k, x in enumerate(lines) if x.startswith("VIOLATION") and k + 1 < len(lines)), "")
            state = "CAUGHT" if rc == 1 and v else f"MISSED rc={rc}"
            rec = os.path.join(V, "tools", "caught.json")
            tbl = json.load(open(rec)) if os.path.exists(rec) else {}
            tbl[i] = "yes, by " + prop if rc == 1 and v else "no"
            json.dump(tbl, open(rec, "w"), indent=1, sort_keys=True)
            print(f"{i} {prop} {state} {lines[-1] if lines else ''} | {first.strip()[:200]}", flush=True)
        finally:
            shutil.rmtree(copy)


if __name__ == "__main__":
    if sys.argv[1] == "catch":
        seed = os.environ.get("VERIF_SEED", "1")
        args = sys.argv[2:]
        allids = sorted(os.listdir(os.path.join(V, "seeded")))
        ids = [i for i in allids if not args or any(i == a or i.startswith(a) for a in args)]
        catch(ids, seed)
