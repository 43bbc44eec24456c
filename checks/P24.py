"""P24: what is derived from recognized circuits."""
import gen, configs


def miterlike(r):
    """circuits whose outputs are compared by XOR gates or by XORs of AND gates, sometimes flawed"""
    ni = r.randint(2, 4)
    cs, gates, n = [], [], ni

    def gate(t, ins, half=False):
        nonlocal n
        n += 1
        o = n
        if t == "and":
            f, b = [[-o, x] for x in ins], [[o] + [-x for x in ins]]
        elif t == "or":
            f, b = [[-o] + list(ins)], [[o, -x] for x in ins]
        else:
            x, y = ins
            f, b = [[-o, x, y], [-o, -x, -y]], [[o, -x, y], [o, x, -y]]
        cs.extend(f + ([] if half else b))
        return o
    lit = lambda v: v * r.choice([-1, 1])
    for _ in range(r.randint(2, 6)):
        pool = list(range(1, n + 1))
        gates.append(gate(r.choice(["and", "or", "xor"]), [lit(v) for v in r.sample(pool, 2)]))
    tops, free = [], gates + list(range(1, ni + 1))
    r.shuffle(free)
    style = r.choice(["xor", "aig", "aig", "mixed"])
    half = r.random() < .4
    for _ in range(r.randint(1, 3)):
        if len(free) < 2 and r.random() < .8:
            break
        x, y = (free.pop(), free.pop()) if len(free) >= 2 and r.random() < .9 else r.sample(range(1, n + 1), 2)
        x, y = lit(x), lit(y)
        if style == "xor" or (style == "mixed" and r.random() < .5):
            tops.append(gate("xor", [x, y], half))
        else:
            flaw = r.random() < .15
            a, b = gate("and", [x, -y], half), gate("and", [x if flaw else -x, y], half)
            tops.append(gate("or", [a, b], half) if r.random() < .9 else a)
    while len(tops) > 1 and r.random() < .6:
        tops.append(gate(r.choice(["or", "or", "and"]), [tops.pop(0), tops.pop(0)], half))
    k = r.random()
    cs += [tops] if k < .4 else [[t] for t in tops] if k < .9 else [[-t] for t in tops]
    r.shuffle(cs)
    return cs


def main(c):
    r = c.rnd
    c.model("MCCircuit", constants={"NI": 2, "NG": 3, "Cap": 1}, must_take=["Push", "Enter", "Again", "Leave", "Count"])
    if c.tier == "thorough":
        c.model("MCCircuit", constants={"NI": 3, "NG": 3, "Cap": 2})
    exe = c.build(["drv_circ"])["drv_circ"]
    rerun = lambda h: c.record(exe, [h])
    hs = []
    for i in range(c.n(1500)):
        k = r.random()
        if k < .45:
            cs, _, _ = gen.dag(r, r.randint(1, 5), r.randint(1, 14), roots=r.choice([1, 1, 2, 3]), half=r.choice([0, 0, .3]))
        elif k < .55:
            cs, _, _ = gen.dag(r, 20, r.randint(3, 9), tree=True)
        elif k < .9:
            cs = miterlike(r)
        else:
            cs = gen.miter(r, r.randint(2, 3), r.randint(2, 4))
        if r.random() < .1:
            cs = cs + [[r.choice([-1, 1]) * v for v in r.sample(range(1, gen.nvars(cs) + 1), min(2, gen.nvars(cs)))]]
        n = gen.nvars(cs)
        s = ["begin g%d" % i, configs.cnfline(cs), "analyze %d %d" % (r.choice([0, 0, 10, 11, 1]), r.choice([1, 2, 5])), "walk", "miter"]
        vs = list(range(1, n + 1))
        r.shuffle(vs)
        while len(vs) >= 2 and r.random() < .85:
            k = min(len(vs), r.choice([2, 2, 3, 4, 6]))
            cl, vs = vs[:k], vs[k:]
            s.append("class " + " ".join(str(v * r.choice([-1, 1])) for v in cl))
        if vs and r.random() < .6:
            s.append("bb " + " ".join(str(v * r.choice([-1, 1])) for v in vs[:r.randint(1, 4)]))
        lim = r.choice([[], [1], [2], [3], [4, 2], [4, 3, 1], [2, 1], [6, 4, 3, 2], [2, 4], [1, 1], [0], [5, 2, 0], [10, 8, 6, 4, 2]])
        s.append("idc %d %s" % (len(lim) + r.choice([1, 1, 2, 3]), " ".join(map(str, lim))))
        hs.append({"name": "g%d" % i, "script": s + ["end"], "n": len(cs)})
    for i in range(c.n(800)):
        n = r.randint(2, 12)
        vs = list(range(1, n + 1))
        r.shuffle(vs)
        s = ["begin v%d" % i, "nvars %d" % n]
        while len(vs) >= 2 and r.random() < .9:
            k = min(len(vs), r.choice([2, 2, 3, 3, 4, 6, 7]))
            cl, vs = vs[:k], vs[k:]
            s.append("class " + " ".join(str(v * r.choice([-1, 1])) for v in cl))
        if vs and r.random() < .7:
            s.append("bb " + " ".join(str(v * r.choice([-1, 1])) for v in vs[:r.randint(1, 4)]))
        for _ in range(r.randint(0, 3)):
            s.append("filter %d %s" % (r.random() < .3, " ".join(map(str, r.sample(range(1, n + 1), r.randint(0, min(n, 4)))))))
        s.append("advice %d %d" % (r.choice([2, 3, 6]), r.random() < .5))
        hs.append({"name": "v%d" % i, "script": s + ["end"], "n": n})
    c.record(exe, hs)
    ev = [e for h in hs for e in h["events"]]
    c.extra["miters"] = {str(b): sum(e["e"] == "miter" and e["yes"] == b for e in ev) for b in (True, False)}
    c.extra["steps with removals"] = sum(e["e"] == "step" and e["probe"] != [] for e in ev)
    c.log(c.extra)
    c.validate("TraceCircuit", {}, hs, rerun, cost=lambda h: 5 + h["n"] ** 1.5, what="circuits and advice")
