"""P15: random simulation and its conjectures."""
import gen, configs


def circuits(c, r, n):
    hs = []
    while len(hs) < n:
        i = len(hs)
        k = r.random()
        if k < .5:
            cs, _, _ = gen.dag(r, r.randint(1, 5), r.randint(1, 8), roots=r.choice([1, 1, 2, 3]), half=r.choice([0, 0, 0, .4]), tree=False)
        elif k < .75:
            cs = gen.circuit(r, r.randint(1, 4), r.randint(1, 6), polarity=r.choice([0, 0, .4]))
        elif k < .9:
            cs = gen.miter(r, r.randint(2, 4), r.randint(1, 4))
        else:
            cs = gen.small(r, 2, 7)
        if r.random() < .3:
            n_ = gen.nvars(cs)
            cs = cs + [[r.choice([-1, 1]) * v for v in r.sample(range(1, n_ + 1), r.randint(1, min(3, n_)))] for _ in range(r.choice([1, 2]))]
        s = ["begin c%d" % i, configs.cnfline(cs), "analyze %d %d" % (r.choice([0, 0, 1, 2, 10, 11]), r.choice([1, 1, 2, 0]))]
        o = r.choice(["rec", "nonrec"])
        s += ["order %s 0" % o]
        if r.random() < .5:
            s += ["simulate %d" % (2048 * r.choice([1, 2, 12, 15]))]
            if r.random() < .5:
                s += ["filter %d %d" % (r.randint(1, 4), r.choice([0, 1]))]
        if r.random() < .5:
            s += ["order %s 1" % r.choice(["rec", "nonrec"])]
        hs.append({"name": "c%d" % i, "script": s + ["end"], "n": len(cs)})
    return hs


def partitions(c, r, n):
    hs = []
    for i in range(n):
        nv = r.choice([1, 2, 3, 5, 8, 12])
        vs = sorted(r.sample(range(1, 2 * nv + 1), nv))
        r.shuffle(vs)
        s = ["begin p%d" % i, "partition %s %s" % (r.choice(["null", "lin1", "lin2", "lin3", "log"]), " ".join(map(str, vs)))]
        place = lambda: r.choice([0, 1, 63, 64, 2047, 1984, r.randrange(2048), r.randrange(2048)])
        # variables move together for a while; groups split in some round
        grp = {v: r.choice(vs) for v in vs}
        pol = {v: r.choice([0, 1]) for v in vs}
        const = {v: r.random() < .3 for v in vs}
        for rd in range(r.choice([1, 2, 3, 4, 5, 8, 9, 17])):
            pats = {g: (r.choice([0, 1]), tuple(sorted({place() for _ in range(r.choice([0, 1, 1, 2]))}))) for g in vs}
            const = {v: const[v] and r.random() < .9 for v in vs}
            if r.random() < .5:
                v = r.choice(vs)
                grp[v] = v
            line = []
            for v in vs:
                b, p = pats[grp[v]]
                if const[v]:
                    b, p = 0, ()
                if r.random() < .03:
                    p = tuple(sorted(set(p) ^ {place()}))
                line += [v, b ^ pol[v], *p, -1]
            s.append("update " + " ".join(map(str, line)))
            if r.random() < .4:
                s.append("conjectures")
        s.append("conjectures")
        s.append("filter %d %d" % (r.randint(1, 4), r.choice([0, 1])))
        hs.append({"name": "p%d" % i, "script": s + ["end"], "n": nv * len(s)})
    return hs


def main(c):
    c.model("MCPartition", constants={"NV": 2, "MaxRounds": 4}, must_take=["Update", "Compress"])
    c.model("MCPartition", constants={"NV": 3, "MaxRounds": c.n(2, 3)})
    exe = c.build(["drv_rs"])["drv_rs"]
    hs = circuits(c, c.rnd, c.n(2500)) + partitions(c, c.rnd, c.n(1500))
    c.record(exe, hs)
    c.extra["conjectures"] = {k: sum(len(e[k]) for h in hs for e in h["events"] if e["e"] in ("simulate", "conjectures")) for k in ("eq", "bb")}
    c.extra["free_variables"] = sum(1 for h in hs for e in h["events"] if e["e"] == "order" and e["free"])
    c.log(c.extra["conjectures"], "orders with free variables", c.extra["free_variables"])
    c.validate("TraceSim", {}, hs, lambda h: c.record(exe, [h]), cost=lambda h: h["n"] ** 2, what="simulation")
