"""
Development tool (not a check): verify the planted changes in /verif/seeded.

    plant.py verify ID [ID ...]     patch applies, tests pass, demo fails with / passes without it
    plant.py catch ID [ID ...]      run the check of the change's property against it
    plant.py catch ID --with C04,C07

Everything happens in a scratch copy of /repo.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def scratch(ident):
    root = tempfile.mkdtemp(prefix=f"plant-{ident}-")
    repo = os.path.join(root, "repo")
    shutil.copytree("/repo", repo, symlinks=True)
    if ident is not None and ident != "clean":
        subprocess.run(["git", "apply", os.path.join(VERIF, "seeded", ident, "patch.diff")], cwd=repo, check=True)
    return root, repo


def tests(repo):
    files = sorted(f for f in os.listdir(os.path.join(repo, "test")) if f.endswith("_test.py"))
    env = dict(os.environ, PYTHONPATH=f"{repo}:/opt/vp/pytest_plugins", PYTHONDONTWRITEBYTECODE="1")
    procs = [(f, subprocess.Popen(
        [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_seed", "-W", "ignore", "--timeout=300",
         f"test/{f}"], cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
        for f in files]
    bad = []
    for f, p in procs:
        out, _ = p.communicate()
        if p.returncode:
            bad.append((f, [l for l in out.splitlines() if l.startswith(("FAILED", "ERROR"))][:5]))
    return bad


def demo(ident, repo):
    env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1")
    with tempfile.TemporaryDirectory() as where:
        shutil.copytree(os.path.join(VERIF, "seeded", ident), os.path.join(where, "d"))
        p = subprocess.run(["bash", os.path.join(where, "d", "demo.sh")], cwd=repo, env=env, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    return p.returncode, p.stdout[-400:]


def main(argv):
    what, ids = argv[0], argv[1:]
    props = None
    if "--with" in ids:
        i = ids.index("--with")
        props = ids[i + 1].split(",")
        del ids[i:i + 2]
    if ids == ["all"]:
        ids = sorted(os.listdir(os.path.join(VERIF, "seeded")))
    for ident in ids:
        meta = json.load(open(os.path.join(VERIF, "seeded", ident, "meta.json")))
        root, repo = scratch(ident)
        try:
            if what == "verify":
                bad = tests(repo)
                rc, out = demo(ident, repo)
                croot, crepo = scratch("clean")
                crc, cout = demo(ident, crepo)
                shutil.rmtree(croot)
                ok = not bad and rc != 0 and crc == 0
                print(f"{ident}: {'ok' if ok else 'BAD'} tests failing: {bad or 'none'}; demo patched rc={rc} clean rc={crc}")
                if not ok:
                    print("   patched:", out, "\n   clean:", cout)
            else:
                for prop in props or [meta["property"]]:
                    p = subprocess.run([PY, os.path.join(VERIF, "check.py"), prop], cwd=VERIF, text=True,
                                       env=dict(os.environ, VERIF_REPO=repo), stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT)
                    lines = p.stdout.strip().splitlines()
                    print(f"{ident}: {prop} rc={p.returncode} " + (" | ".join(l[:160] for l in lines[-3:])
                                                                   if p.returncode else "MISSED"))
            sys.stdout.flush()
        finally:
            shutil.rmtree(root)


if __name__ == "__main__":
    main(sys.argv[1:])
