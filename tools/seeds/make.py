"""Build /verif/seeded/<id> from tools/seeds/defs.py and report what catches each change.

usage: make.py [ids...] [--no-tests] [--no-check]
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

HERE = Path(__file__).resolve().parent
VERIF = HERE.parent.parent
OUT = VERIF / "seeded"
BASE = "55fce06"
PY = "/opt/venv/bin/python"


def load():
    spec = importlib.util.spec_from_file_location("defs", HERE / "defs.py")
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod.SEEDS


def sh(cmd, cwd, **env):
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=1500,
                       env={**os.environ, **env}, check=False)
    return p.returncode, p.stdout + p.stderr


def one(seed, tests, check):
    sid = seed["id"]
    tree = Path(f"/tmp/w/seed_{sid}")
    shutil.rmtree(tree, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", str(tree)], check=True)
    out = OUT / sid
    shutil.rmtree(out, ignore_errors=True)
    out.mkdir(parents=True)
    res = {"id": sid, "property": seed["property"]}
    try:
        for file, old, new in seed["edits"]:
            path = tree / "src/ampform_dpd" / file
            text = path.read_text()
            if text.count(old) != 1:
                res["error"] = f"{file}: {text.count(old)} matches of {old[:60]!r}"
                return res
            path.write_text(text.replace(old, new))
        rc, diff = sh("git diff", tree)
        (out / "patch.diff").write_text(diff)
        removed = 0
        for line in diff.splitlines():
            if line.startswith("--- a/"):
                _, base = sh(f"git show {BASE}:{line[6:]}", tree)
                base = base.splitlines()
            elif line.startswith("-") and not line.startswith("---") and line[1:].strip():
                removed += 1
                if line[1:] not in base:
                    res.setdefault("not_original", []).append(line)
        if not removed:
            res["not_original"] = "nothing removed"
        helper = (HERE / "helper.txt").read_text() if seed.get("helper", True) else "import sys\n\n\ndef fail(message):\n    print('FAIL:', message)\n    sys.exit(1)\n\n\n"
        (out / "demo.py").write_text(helper + seed["demo"].strip() + "\nprint('ok')\n")
        (out / "demo.sh").write_text(
            '#!/bin/bash\n# cwd: the repository\nexport PYTHONPATH="$PWD/src" JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1\n'
            'SCRATCH=$(mktemp -d)\ntrap \'rm -rf "$SCRATCH"\' EXIT\nexport COMPWA_CACHE_DIR="$SCRATCH/cache"\n'
            f'{PY} "$(dirname "$0")/demo.py"\n')
        (out / "demo.sh").chmod(0o755)
        (out / "meta.json").write_text(json.dumps(
            {"property": seed["property"], "needs": seed["needs"], "what_it_breaks": seed["breaks"]}, indent=1) + "\n")
        rc0, o0 = sh(f"bash {out}/demo.sh", "/repo")
        rc1, o1 = sh(f"bash {out}/demo.sh", tree)
        res["demo"] = (rc0, rc1)
        if rc0 != 0 or rc1 == 0:
            res["demo_out"] = (o0[-600:], o1[-600:])
        else:
            res["why"] = next((x for x in o1.splitlines() if x.startswith("FAIL")), o1.strip().splitlines()[-1])[:150]
        if tests:
            base = json.load(open("/opt/vp/BASELINE.json"))
            rc, o = sh(f"PYTHONPATH={tree}/src {PY} -m pytest -q -x -m 'slow or not slow' --no-header -p no:cacheprovider tests src 2>&1 | tail -5", tree,
                       COMPWA_CACHE_DIR=f"/tmp/w/cache_{sid}", XDG_CACHE_HOME=f"/tmp/w/cache_{sid}/x", JAX_PLATFORMS="cpu",
                       PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
            res["tests"] = o.strip().splitlines()[-1:] if rc == 0 else o[-500:]
        if check:
            for pid in seed.get("checks", [seed["property"]]):
                rc, o = sh(f"{VERIF}/check {pid} quick", VERIF, VERIF_REPO=str(tree), VERIF_JOBS="4")
                res.setdefault("checks", {})[pid] = rc
                if rc != 1:
                    res["check_out"] = o[-300:]
    finally:
        shutil.rmtree(tree, ignore_errors=True)
        shutil.rmtree(f"/tmp/w/cache_{sid}", ignore_errors=True)
    return res


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    tests, check = "--no-tests" not in sys.argv, "--no-check" not in sys.argv
    seeds = [s for s in load() if not ids or s["id"] in ids]
    with ThreadPoolExecutor(3) as ex:
        for res in ex.map(lambda s: one(s, tests, check), seeds):
            print(json.dumps(res, indent=None), flush=True)


if __name__ == "__main__":
    main()
