#!/opt/venv/bin/python
"""Developer tool for the planted bugs in seeded/ (no check uses it).

  plant.py tests ID..     stable tests in a scratch copy with the patch
  plant.py demo ID..      demo.sh without and with the patch, in a scratch copy
  plant.py check ID..     the property's quick check against /repo with the patch applied (undone afterwards)
"""
import json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(HERE, "seeded")
SCR = "/tmp/plant"


def scratch(i, patch=True):
    d = os.path.join(SCR, i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(SCR, exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    if patch:
        subprocess.run(["git", "-C", d, "apply", os.path.join(S, i, "patch.diff")], check=True)
    return d


def tests(i):
    d = scratch(i)
    sh = open("/opt/vp/test.sh").read().replace("/repo", d).replace("/opt/vp/reports", d + "-rep")
    f = d + ".sh"
    open(f, "w").write(sh)
    out = d + ".json"
    subprocess.run(["bash", f, out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    got = json.load(open(out))
    miss = sorted(stable - set(got["passed"]))
    shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(d + "-rep", ignore_errors=True)
    os.unlink(f)
    os.unlink(out)
    return miss


def demo(i):
    r = []
    for p in (False, True):
        d = scratch(i + "-d%d" % p, False)
        if p:
            subprocess.run(["git", "-C", d, "apply", os.path.join(S, i, "patch.diff")], check=True)
        x = os.path.join(SCR, i + "-demo")
        shutil.rmtree(x, ignore_errors=True)
        shutil.copytree(os.path.join(S, i), x, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        t = time.time()
        c = subprocess.run(["bash", os.path.join(x, "demo.sh")], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        r.append((c.returncode, round(time.time() - t, 1), c.stdout.strip().splitlines()[-1:] ))
        shutil.rmtree(d)
        shutil.rmtree(x)
    return r


def check(i, prop=None):
    m = json.load(open(os.path.join(S, i, "meta.json")))
    prop = prop or m["property"]
    assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], stdout=subprocess.PIPE, text=True).stdout.strip()
    subprocess.run(["git", "-C", "/repo", "apply", os.path.join(S, i, "patch.diff")], check=True)
    try:
        t = time.time()
        c = subprocess.run([os.path.join(HERE, "check.py"), prop], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return c.returncode, round(time.time() - t), [l[:300] for l in c.stdout.splitlines() if "VIOLATION" in l or "violat" in l][:3], c.stdout[-600:]
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)


if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(os.listdir(S))
    for i in ids:
        try:
            r = globals()[sys.argv[1]](i)
        except Exception as e:
            r = "ERROR %r" % e
        print(i, r, flush=True)
