"""P02: every incremental answer is about exactly the clauses added so far and the current assumptions."""
import gen, configs, inc
CONSTS = {"CheckAnswers": "TRUE", "CheckCore": "FALSE", "CheckLearn": "FALSE", "CheckTerm": "FALSE"}


def main(c):
    c.model("MCIpasir", must_take=["DoAdd", "DoAssume", "DoSolve", "DoTerm"])
    exe = c.build(["drv_inc"])["drv_inc"]
    rerun = lambda h: c.record(exe, [h])
    r = c.rnd
    hs = []
    for nv in (3, 5, 7):
        for i, w in enumerate(inc.tlc_walks(c, c.n(300), nv, 10 * nv, "w%d" % nv)):
            a = inc.rand_api(r)
            hs.append(inc.walk_script("w%d.%d" % (nv, i), w, a, configs.options(r, a)))
    for i in range(c.n(2500)):
        hs.append(inc.small_history(r, "s%d" % i, term=r.random() < .1))
    for i in range(c.n(300)):
        hs.append(inc.side_by_side(r, "m%d" % i, r.choice([2, 2, 3]), nv=r.randint(2, 8)))
    for i in range(c.n(250)):
        hs.append(inc.small_history(r, "t%d" % i, nv=r.randint(10, 16), rounds=r.randint(3, 8)))
    c.record(exe, hs)
    c.validate("TraceIpasir", CONSTS, hs, rerun, cost=lambda h: 20 + h["size"], what="TLC walks and random histories")
    hs = [inc.planted_history(r, "p%d" % i, r.choice([30, 60, 100, 150]), learn=r.random() < .2) for i in range(c.n(120))]
    c.record(exe, hs)
    c.validate("TraceIpasir", CONSTS, hs, rerun, what="planted histories")
