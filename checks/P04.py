"""P04: interruption -> unknown only when asked for, promptly when asked for, and later answers stay right."""
import gen, configs, inc
CONSTS = {"CheckAnswers": "TRUE", "CheckCore": "TRUE", "CheckLearn": "FALSE", "CheckTerm": "TRUE"}


def main(c):
    c.model("MCIpasir", must_take=["DoAdd", "DoAssume", "DoSolve", "DoTerm"])
    exe = c.build(["drv_inc"])["drv_inc"]
    rerun = lambda h: c.record(exe, [h])
    r = c.rnd
    hs = []
    for i, w in enumerate(inc.tlc_walks(c, c.n(300), 5, 40, "w")):
        a = inc.rand_api(r)
        hs.append(inc.walk_script("w%d" % i, w, a, configs.options(r, a)))
    for i in range(c.n(1500)):
        hs.append(inc.small_history(r, "s%d" % i, nv=r.randint(3, 14), term=True))
    for i in range(c.n(200)):
        hs.append(inc.side_by_side(r, "m%d" % i, r.choice([2, 2, 3]), nv=r.randint(3, 10), term=True))
    # interruption in the middle of a real search, then the same solver goes on
    for i in range(c.n(200)):
        a = inc.rand_api(r)
        o = configs.options(r, a)
        cs = gen.shuffle_vars(r, r.choice([gen.php(5, 4), gen.php(4, 4), gen.parity(r, 12, 10), gen.rand_ksat(r, 14, 4.4), gen.miter(r, 4, 6)]))
        s = ["begin i%d" % i] + ["opt " + x for x in o] + ["api " + a, configs.cnfline(cs)]
        for _ in range(r.randint(1, 4)):
            s += ["term %d" % r.choice([0, 1, 2, 3, 4, 6])]
            if r.random() < .3:
                s.append("assume %d" % (r.choice([-1, 1]) * r.randint(1, gen.nvars(cs))))
            s.append("solve")
        s += ["noterm", "solve", "end"]
        hs.append({"name": "i%d" % i, "script": s, "size": len(cs) * 5})
    c.record(exe, hs)
    c.extra["unknown_answers"] = sum(e["e"] == "solve" and e["r"] == 0 for h in hs for e in h["events"])
    if c.extra["unknown_answers"] == 0:
        c.log("no interruption was observed")
    c.validate("TraceIpasir", CONSTS, hs, rerun, cost=lambda h: 20 + h["size"], what="histories with interruptions")
    # formulas which are out of reach: only a solver which honours the request returns at all
    hs = []
    for i in range(c.n(24, 96)):
        a = ["ipasir", "iface 0 0 0 0 3", "iface 0 1 0 0 3", "iface 1 0 0 0 3", "iface 1 1 0 0 3"][i % 5]
        cs = inc.hard(r)
        s = ["begin x%d" % i, "limit 120"] + ["opt " + x for x in (["-no-pre"] if r.random() < .5 else [])] + ["api " + a, configs.cnfline(cs), "full 0"]
        # the later ones come after several reductions of the clause database
        for k in sorted(r.sample(range(0, 6), 2)) + ([r.choice([8, 12, 16])] if i % 3 == 0 else []):
            if r.random() < .4:
                s += ["assume %d" % (r.choice([-1, 1]) * v) for v in r.sample(range(1, gen.nvars(cs) + 1), r.randint(1, 2))]
            s += ["term %d" % k, "solve"]
        hs.append({"name": "x%d" % i, "script": s + ["end"], "size": 10})
    c.record(exe, hs)
    c.validate("TraceIpasir", CONSTS, hs, rerun, what="interrupting hard formulas")
