"""P07: verdicts of the built-in proof checker."""
import os
import gen, configs, drat


def main(c):
    c.model("MCDrat", must_take=["Add", "Del", "DelLax"])
    ex = c.build(["drv_inc", "drv_drat"])
    r = c.rnd
    exe = ex["drv_drat"]
    rerun = lambda h: c.record(exe, [h])

    def hist(name, cs, lines):
        s = ["begin " + name, "proof %s/%s.drat" % (c.work, name), configs.cnfline(cs)]
        s += ["%s %s 0" % (k, " ".join(map(str, x))) for k, x in lines]
        return {"name": name, "script": s + ["check", "end"], "n": len(cs)}
    hs = []
    # proofs over few variables, with deletions and RAT lemmas
    for i in range(c.n(6000)):
        nv = r.choice([2, 2, 3, 3, 4, 5])
        cs = [[r.choice([-1, 1]) * v for v in r.sample(range(1, nv + 1), r.choice([k for k in (1, 2, 2, 3) if k <= nv]))] for _ in range(r.randint(1, 2 * nv + 3))]
        if r.random() < .15:
            cs.append(list(r.choice(cs)))
        # all variables are mentioned by the formula
        used = {abs(x) for x_ in cs for x in x_}
        cs += [[v, -v] if False else [v, r.choice([w for w in range(1, nv + 1) if w != v])] for v in range(1, nv + 1) if v not in used]
        lines = drat.walk(r, cs, nv, r.randint(2, 14))
        if r.random() < .3:
            lines = drat.mutate(r, lines, nv)
        if r.random() < .03 and lines:
            # a variable which the formula does not have: never accepted unless refuted before
            lines.insert(r.randrange(len(lines) + 1), (r.choice("ldd"), [r.choice([-1, 1]) * r.choice([nv + 1, nv + 2, 5000])] + ([1] if r.random() < .5 else [])))
        hs.append(hist("w%d" % i, cs, lines))
    # certificates of the solver, and mutations of them
    src = []
    for i in range(c.n(260)):
        a = configs.api(r, True)
        cs = r.choice([lambda: gen.small(r, 3, 9), lambda: gen.php(4, 3), lambda: gen.parity(r, 8, 8), lambda: gen.rand_ksat(r, r.randint(6, 14), 6), lambda: gen.miter(r, 3, 5)])()
        src.append({"name": "c%d" % i, "script": ["begin c%d" % i] + ["opt " + o for o in configs.options(r, a)] +
                    ["proof %s/src%d.drat" % (c.work, i), "api " + a, configs.cnfline(cs), "solve", "end"], "cs": cs})
    c.record(ex["drv_inc"], src)
    n = 0
    for h in src:
        if not any(e["e"] == "solve" and e["r"] == 20 for e in h["events"]):
            continue
        lines = [("l" if e["e"] == "lemma" else "d", e["c"]) for e in h["events"] if e["e"] in ("lemma", "del")]
        if len(lines) > c.n(150, 1000):
            continue
        nv = gen.nvars(h["cs"])
        n += 1
        hs.append(hist(h["name"], h["cs"], lines))
        for k in range(3):
            hs.append(hist("%sm%d" % (h["name"], k), h["cs"], drat.mutate(r, lines, nv)))
    c.extra["solver_certificates"] = n
    c.record(exe, hs)
    verd = {}
    for h in hs:
        v = h["events"][-1].get("v", "crash")
        verd[v] = verd.get(v, 0) + 1
    c.extra["verdicts"] = verd
    c.log(verd)
    c.validate("TraceChecker", {}, hs, rerun, cost=lambda h: len(h["events"]) * (4 + h["n"]), what="checker verdicts")
