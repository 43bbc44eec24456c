"""P05: exported learnt clauses follow from the clauses alone and respect the length bound."""
import gen, configs, inc
CONSTS = {"CheckAnswers": "FALSE", "CheckCore": "FALSE", "CheckLearn": "TRUE", "CheckTerm": "FALSE"}


def main(c):
    c.model("MCIpasir", must_take=["DoAdd", "DoAssume", "DoSolve"])
    exe = c.build(["drv_inc"])["drv_inc"]
    rerun = lambda h: c.record(exe, [h])
    r = c.rnd
    hs = []
    for i, w in enumerate(inc.tlc_walks(c, c.n(300), 6, 60, "w")):
        a = inc.rand_api(r)
        hs.append(inc.walk_script("w%d" % i, w, a, configs.options(r, a)))
    for i in range(c.n(1500)):
        hs.append(inc.small_history(r, "s%d" % i, nv=r.randint(4, 14), learn=True))
    for i in range(c.n(200)):
        hs.append(inc.side_by_side(r, "m%d" % i, r.choice([2, 2, 3]), nv=r.randint(4, 10), learn=True))
    for i in range(c.n(300)):
        a = inc.rand_api(r)
        o = configs.options(r, a) + (["-no-pre"] if r.random() < .5 else [])
        cs = gen.shuffle_vars(r, r.choice([gen.php(4, 3), gen.php(5, 4), gen.parity(r, 12, 10), gen.rand_ksat(r, 16, 4.4), gen.miter(r, 4, 6)]))
        s = ["begin l%d" % i] + ["opt " + x for x in o] + ["api " + a, configs.cnfline(cs), "learn %d" % r.choice([1, 2, 3, 5, 100])]
        for _ in range(r.randint(1, 3)):
            s += ["assume %d" % (r.choice([-1, 1]) * r.randint(1, gen.nvars(cs))) for _ in range(r.randint(0, 3))]
            s.append("solve")
        hs.append({"name": "l%d" % i, "script": s + ["solve", "end"], "size": len(cs) * 10})
    for i in range(c.n(400)):
        # long learnt clauses; what a second solver exports tells which ones are due
        a = inc.rand_api(r)
        o = configs.options(r, a) + (["-no-pre"] if r.random() < .7 else [])
        cs = gen.shuffle_vars(r, r.choice([gen.php(4, 3), gen.php(5, 4), gen.php(6, 5), gen.rand_ksat(r, 12, 9, (3, 4, 5)), gen.rand_ksat(r, 11, 22, (5, 6)), gen.miter(r, 4, 6), gen.small(r, 3, 9)]))
        s = ["begin t%d" % i, "limit 20"] + ["opt " + x for x in o] + ["api " + a, "twin", "learn %d" % r.choice([1, 2, 3, 4, 6, 8, 12, 100])]
        k = r.choice([1, 1, 2, 3])
        cut = sorted(r.randint(0, len(cs)) for _ in range(k - 1))
        for x, y in zip([0] + cut, cut + [len(cs)]):
            s.append(configs.cnfline(cs[x:y]))
            s += ["assume %d" % (r.choice([-1, 1]) * r.randint(1, gen.nvars(cs))) for _ in range(r.randint(0, 2))]
            s.append("solve")
            if r.random() < .3:
                s.append("learn %d" % r.choice([1, 2, 4, 5, 7, 10, 100]))
        hs.append({"name": "t%d" % i, "script": s + ["end"], "size": len(cs) * 10})
    c.record(exe, hs)
    c.extra["longest_exported"] = max(len(x) for h in hs for e in h["events"] if e["e"] == "solve" for x in e["ln"] + [[]])
    c.extra["exported_clauses"] = sum(len(e["ln"]) for h in hs for e in h["events"] if e["e"] == "solve")
    c.validate("TraceIpasir", CONSTS, hs, rerun, cost=lambda h: 20 + h["size"] + 30 * sum(len(e.get("ln", [])) for e in h["events"]), what="histories with a learn callback")
