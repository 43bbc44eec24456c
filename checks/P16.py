"""P16: abstraction refinement (RSAR)."""
import gen, configs


def conj_lines(r, vs, sizes=(2, 2, 3, 4, 5)):
    """random classes and backbones over the variables"""
    vs = list(vs)
    r.shuffle(vs)
    lines, used = [], []
    nbb = r.choice([0, 0, 1, 2])
    bb = vs[:nbb]
    vs = vs[nbb:]
    while len(vs) >= 2 and r.random() < .85:
        k = min(len(vs), r.choice(sizes))
        cl, vs = vs[:k], vs[k:]
        used += cl
        lines.append("class " + " ".join(str(v * r.choice([-1, 1])) for v in cl))
    if bb:
        lines.append("bb " + " ".join(str(v * r.choice([-1, 1])) for v in bb))
    return lines, used + bb


def main(c):
    r = c.rnd
    c.model("MCApprox", constants={"N": 5, "MaxBB": 1}, must_take=["Refine"])
    if c.tier == "thorough":
        c.model("MCApprox", constants={"N": 6, "MaxBB": 1})
    exe = c.build(["drv_rsar"])["drv_rsar"]
    rerun = lambda h: c.record(exe, [h])
    hs = []
    for i in range(c.n(1500)):
        n = r.choice([2, 3, 4, 5, 6, 7])
        # few, large classes: several variables which are not neighbours have to go in one step
        large = i % 8 == 0
        if large:
            n = r.choice([7, 8, 9])
        ls, used = conj_lines(r, range(1, n + 1), (6, 7, 8) if large else (2, 2, 3, 4, 5))
        s = ["begin a%d" % i, "nvars %d" % (n + r.choice([0, 3]))] + ls
        left = list(used)
        first = True
        while left and r.random() < .92:
            k = r.choice([0, 1, 1, 2, 3, len(left)]) if first else r.choice([1, 1, 2, 3, len(left)])
            if large and r.random() < .7:
                k = r.choice([4, 5, 5])
            rm = r.sample(left, min(k, len(left)))
            left = [v for v in left if v not in rm]
            extra = [r.randint(1, n)] if r.random() < .2 and not first else []
            extra = [v for v in extra if v not in left]
            s.append("remove " + " ".join(map(str, rm + extra)))
            first = False
        if first:
            s.append("remove")
        hs.append({"name": "a%d" % i, "script": s + ["refine", "end"], "n": n * len(s)})
    c.record(exe, hs)
    c.validate("TraceApprox", {}, hs, rerun, cost=lambda h: 2 ** h["n"] if h["n"] < 16 else h["n"] ** 4, what="refinement steps")
    hs = []
    for i in range(c.n(1500)):
        cs = gen.small(r, 2, 8) if r.random() < .6 else gen.circuit(r, r.randint(1, 4), r.randint(1, 5)) if r.random() < .6 else gen.miter(r, 2, 2)
        n = gen.nvars(cs)
        s = ["begin s%d" % i, "limit 20"] + ["opt " + o for o in configs.options(r, "iface 0 0 0 0 3")]
        if r.random() < .6:
            s += ["opt -rsar-max-refinements=%d" % r.choice([1, 2, 3, 10])]
        s.append(configs.cnfline(cs))
        ls, used = conj_lines(r, range(1, n + 1))
        s += ls
        heur = r.random() < .5
        if heur:
            for _ in range(r.randint(0, 3)):
                s.append("remove " + " ".join(map(str, r.sample(used, r.randint(0, len(used))))))
        s.append("solve %d" % heur)
        hs.append({"name": "s%d" % i, "script": s + ["end"], "n": len(cs)})
    for i in range(c.n(500)):
        cs, _, _ = gen.dag(r, r.randint(2, 5), r.randint(2, 12), roots=r.choice([1, 2]), half=0, tree=False)
        if r.random() < .4:
            cs = gen.miter(r, r.randint(2, 3), r.randint(2, 4))
        s = ["begin f%d" % i, "limit 20", "opt -rsar-min-gatecount=%d" % r.choice([1, 1, 2, 5, 100]), "opt -rs-rounds=%d" % r.choice([1, 2048, 20000])]
        if r.random() < .5:
            s.append("opt -rsar-heur-idc=%s" % r.choice(["4", "2", "1"]))
        if r.random() < .3:
            s.append("opt " + r.choice(["-rs-remove-backbone-conj", "-rs-max-conj-size=2", "-rs-only-nonmono-gates", "-rs-abort-by-rrat"]))
        hs.append({"name": "f%d" % i, "script": s + [configs.cnfline(cs), "factory", "end"], "n": len(cs)})
    c.record(exe, hs)
    res = [e.get("r", e["e"]) for h in hs for e in h["events"] if e["e"] in ("solve", "none", "crash")]
    c.extra["results"] = {str(k): res.count(k) for k in set(res)}
    c.log(c.extra["results"])
    c.validate("TraceApprox", {}, hs, rerun, cost=lambda h: h["n"] ** 2, what="answers")
