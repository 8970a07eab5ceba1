"""Developer tool: python -m sim.trial PROP START END [STEP]"""
import collections, sys, time
from . import exp, seams
if __name__ == "__main__":
    prop, a, b = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    st = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    seams.install()
    t = seams._real["perf_counter"]()
    c = collections.Counter()
    for i in range(a, b, st):
        t1 = seams._real['perf_counter']()
        sc = exp.generate(prop, i)
        r = exp.run(sc, i)
        dt = seams._real['perf_counter']() - t1
        if dt > 3: print('SLOW', i, round(dt, 1), sc.get('kind'), sc.get('args') or sc.get('ops'), len(r.world.ctx.calls), r.world.nlog)
        c["runs"] += 1
        c["steps"] += r.world.nlog
        if r.budget: print("BUDGET", i, r.budget)
        for k, v in r.world.stats.items(): c[k] += v
        for cls, d in r.violations:
            print("VIO", prop, i, cls, sc.get("kind"), d[:600])
    print(prop, "%.1fs" % (seams._real["perf_counter"]() - t), dict(c))
