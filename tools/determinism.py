"""One seed is one execution: equal digests forwards, backwards, from the recorded trace, in different processes.

  /opt/venv/bin/python tools/determinism.py [RUNS]
"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
CODE = """
import os, sys, json
fd = os.dup(1); os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
from sim import exp, seams, worker
seams.install()
prop, ids, mode = sys.argv[1], json.loads(sys.argv[2]), sys.argv[3]
out = {}
for i in ids:
    s = worker.run_seed(7, prop, i)
    sc = exp.generate(prop, s)
    if mode == "json":
        sc = json.loads(json.dumps(sc))
    r = exp.run(sc, s)
    if mode == "trace":
        tr = json.loads(json.dumps(r.trace))
        r = exp.run(json.loads(json.dumps(sc)), 0, tr)
    out[i] = [r.digest, [c for c, _ in r.violations]]
os.write(fd, json.dumps(out).encode())
"""


def go(prop, ids, mode, hs):
    env = dict(os.environ, PYTHONHASHSEED=str(hs), PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1")
    return subprocess.Popen([PY, "-W", "ignore", "-c", CODE, prop, json.dumps(ids), mode], cwd=HERE, env=env,
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE)


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 30
    bad = 0
    for k in range(1, 14):
        prop = "C%02d" % k
        ids = list(range(n))
        for hs in (1, 4242):
            ps = [go(prop, ids, "json", hs), go(prop, ids[::-1], "json", hs), go(prop, ids, "trace", hs)]
            ps += [go(prop, [i], "json", hs) for i in ids[:4]]
            rs = []
            for p in ps:
                o, e = p.communicate()
                if p.returncode:
                    print(e.decode()[-800:])
                    return 2
                rs.append(json.loads(o))
            for r in rs[1:]:
                for i in r:
                    if r[i] != rs[0][i]:
                        bad += 1
                        print("DIFFERENT", prop, i, hs, rs.index(r), rs[0][i], r[i])
        print(prop, "ok" if not bad else "bad so far: %d" % bad, flush=True)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
