"""Recorded search runs (P09, P10, P12)."""
import gen, configs


def hist(r, name, cs, opts, events=400, rounds=None):
    s = ["begin " + name] + ["opt " + o for o in opts] + ["type %d %s" % (r.choice([0, 0, 1]), r.choice(["vsids", "vsids", "lrb", "vsidsc"] if not rounds else ["vsids", "lrb"])), "events %d" % events]
    if r.random() < .2:
        s.append("asymm")
    for k, (c, a) in enumerate(rounds or [(cs, [])]):
        if c:
            s.append(configs.cnfline(c))
        if a:
            s.append("assume " + " ".join(map(str, a)) + " 0")
        s.append("solve")
    return {"name": name, "script": s + ["end"], "n": len(cs)}


def opts(r):
    a = "iface 0 0 0 0 3"
    return configs.aggressive(r, a) if r.random() < .6 else configs.options(r, a)


def histories(c, r, n_small, n_medium, n_inc, lo=3, hi=9):
    hs = []
    for i in range(n_small):
        cs = gen.small(r, lo, hi)
        if r.random() < .5:
            cs = gen.shuffle_vars(r, cs, True)
        hs.append(hist(r, "s%d" % i, cs, opts(r)))
    for i in range(n_medium):
        cs = gen.shuffle_vars(r, r.choice([lambda: gen.rand_ksat(r, r.randint(12, 22), r.uniform(3.6, 5)), lambda: gen.hide(r, gen.rand_ksat(r, 9, 4.6), .12),
                                           lambda: gen.php(4, 3), lambda: gen.php(5, 4), lambda: gen.parity(r, 9, 8), lambda: gen.miter(r, 4, 6),
                                           lambda: gen.circuit(r, 5, 14), lambda: gen.rand_ksat(r, r.randint(10, 14), r.uniform(5, 9), (3, 4, 5))])())
        hs.append(hist(r, "m%d" % i, cs, opts(r), 250))
    for i in range(n_inc):
        nv = r.randint(4, 12)
        rounds = []
        cs = []
        for k in range(r.randint(2, 4)):
            new = gen.rand_ksat(r, nv, r.uniform(1.5, 3.5), (2, 3, 3)) if k == 0 else gen.rand_ksat(r, nv, r.uniform(0, .6), (1, 2, 3))
            cs += new
            rounds.append((new, [r.choice([-1, 1]) * r.randint(1, nv) for _ in range(r.randint(0, 4))]))
        hs.append(hist(r, "i%d" % i, cs, opts(r), 150, rounds))
    return hs


def main(c, consts, small=500, medium=160, inc=250, lo=3, hi=9):
    c.model("MCCdcl", must_take=["Fact", "Propagate", "Conflict", "Decide", "Model", "Learn", "Backjump", "Restart"])
    c.model("MCCdcl", constants={"NV": 3, "MaxClauses": c.n(3, 4), "MaxLearnt": 1}, must_take=["Forget"])
    exe = c.build(["drv_cdcl"])["drv_cdcl"]
    rerun = lambda h: c.record(exe, [h])
    hs = histories(c, c.rnd, c.n(small), c.n(medium), c.n(inc), lo, hi)
    c.record(exe, hs)
    kinds = {}
    for h in hs:
        for e in h["events"]:
            kinds[e["e"]] = kinds.get(e["e"], 0) + 1
    c.extra["event_kinds"] = kinds
    c.log("recorded", len(hs), kinds)
    for k in ("db", "prop", "learn", "final", "result"):
        if not kinds.get(k):
            from vlib import CheckError
            raise CheckError("no %s events recorded" % k)
    c.validate("TraceCdcl", consts, hs, rerun, cost=lambda h: sum(3 + h["n"] // 4 for e in h["events"]), what="search runs")
