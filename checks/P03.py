"""P03: the failed assumptions are assumptions of this call and already contradict the clauses."""
import gen, configs, inc
CONSTS = {"CheckAnswers": "FALSE", "CheckCore": "TRUE", "CheckLearn": "FALSE", "CheckTerm": "FALSE"}


def main(c):
    c.model("MCIpasir", must_take=["DoAdd", "DoAssume", "DoSolve"])
    exe = c.build(["drv_inc"])["drv_inc"]
    rerun = lambda h: c.record(exe, [h])
    r = c.rnd
    hs = []
    for nv in (4, 6):
        for i, w in enumerate(inc.tlc_walks(c, c.n(300), nv, 10 * nv, "w%d" % nv)):
            a = inc.rand_api(r)
            hs.append(inc.walk_script("w%d.%d" % (nv, i), w, a, configs.options(r, a)))
    for i in range(c.n(2500)):
        hs.append(inc.small_history(r, "s%d" % i, many_assumptions=True))
    for i in range(c.n(200)):
        hs.append(inc.side_by_side(r, "m%d" % i, r.choice([2, 2, 3]), nv=r.randint(2, 8), many_assumptions=True))
    for i in range(c.n(500)):
        hs.append(inc.small_history(r, "t%d" % i, nv=r.randint(10, 20), rounds=r.randint(3, 8), many_assumptions=True))
    c.record(exe, hs)
    st = {}
    for h in hs:
        for e in h["events"]:
            if e["e"] == "solve" and e["r"] == 20:
                st[len(e["f"])] = st.get(len(e["f"]), 0) + 1
    c.extra["core_sizes"] = {str(k): v for k, v in sorted(st.items())}
    c.validate("TraceIpasir", CONSTS, hs, rerun, cost=lambda h: 20 + h["size"], what="histories with many assumptions")
