"""P14: model minimization."""
import gen, configs, gates


def main(c):
    r = c.rnd
    c.model("MCGates", must_take=["UnitRoots", "MoreRoots", "Recognize"])
    ex = c.build(["drv_gates", "drv_min"])
    hs = []

    def hist(name, cs, m, mode):
        return {"name": name, "script": ["begin " + name, "limit 10", configs.cnfline(cs), "model " + " ".join(map(str, m)), "minimize %d %d %d" % mode, "end"], "n": len(cs)}
    while len(hs) < c.n(2400):
        i = len(hs)
        k = r.random()
        if k < .35:
            cs = gen.small(r, 2, 8)
            m = gen.a_model(r, cs)
        elif k < .75:
            cs, _, m = gen.dag(r, r.randint(1, 4), r.randint(1, 5), roots=r.choice([1, 1, 2]), half=r.choice([0, 0, .4]), tree=False)
        else:
            cs = gen.circuit(r, r.randint(1, 4), r.randint(1, 4), polarity=r.choice([0, 0, .4]))
            n = gen.nvars(cs)
            cs += [[r.choice([-1, 1]) * v for v in r.sample(range(1, n + 1), r.randint(1, min(3, n)))] for _ in range(r.choice([0, 1, 2]))]
            m = gen.a_model(r, cs)
        if m and gen.nvars(cs) <= 9:
            hs.append(hist("m%d" % i, cs, m, (int(r.random() < .5), int(r.random() < .3), int(r.random() < .3))))
    for i in range(c.n(900)):
        # covering problems in which greedy choices are not optimal
        n = r.randint(4, 9)
        m = [r.choice([-1, 1]) * v for v in range(1, n + 1)]
        cs = []
        for _ in range(r.randint(2, n + 2)):
            t = r.sample(m, r.choice([1, 2, 2, 3, 3, n]))
            u = [-x for x in r.sample(m, r.choice([0, 0, 1, 2])) if x not in t]
            cs.append(t + u)
        m = m[:max(abs(x) for c_ in cs for x in c_)]
        hs.append(hist("h%d" % i, cs, m, (int(r.random() < .2), int(r.random() < .8), int(r.random() < .1))))
    c.record(ex["drv_min"], hs)
    c.validate("TraceMin", {}, hs, lambda h: c.record(ex["drv_min"], [h]), cost=lambda h: h["n"] ** 2, what="minimized models")
    gs = gates.histories(c, r, c.n(300), c.n(300), c.n(500))
    c.record(ex["drv_gates"], gs)
    c.validate("TraceGates", {"CheckStructure": "FALSE", "CheckPrune": "TRUE", "EnumVars": "8"}, gs, lambda h: c.record(ex["drv_gates"], [h]), cost=lambda h: h["n"] ** 2, what="pruned problems")
