"""P21: branching heuristics."""
import collections
import gen, configs


def main(c):
    r = c.rnd
    c.model("MCBranch", must_take=["Advised", "Drawn", "Nothing", "Imply", "Conflict", "Restart"])
    exe = c.build(["drv_branch"])["drv_branch"]
    rerun = lambda h: c.record(exe, [h])
    hs = []
    for i in range(c.n(1500)):
        kind = ["vsids", "lrb", "rsil", "van", "bud", "vsidsc", "rsil", "bud", "vsids"][i % 9]
        size = r.choice([2, 3, 3])
        o = []
        if r.random() < .5:
            o.append("-no-pre")
        if r.random() < .3:
            o.append("-inprocessing=%d" % r.choice([1, 2, 5]))
        if r.random() < .25:
            o.append("-sort-variables")
        if r.random() < .3:
            o.append("-extra-bump" if r.random() < .7 else "-no-extra-bump")
        if r.random() < .3:
            o.append("-var-decay=%s" % r.choice(["0.1", "0.5", "0.75", "0.95"]))
        if r.random() < .4:
            o += ["-szLBDQueue=10", "-K=%s" % r.choice(["0.2", "0.5", "0.9"])]
        if r.random() < .3:
            o += ["-firstReduceDB=%d" % r.choice([2, 5, 20]), "-incReduceDB=1"]
        if kind == "lrb" and r.random() < .5:
            o += ["-lrb-step-size=%s" % r.choice(["0.1", "0.5", "0.9"]), "-lrb-min-step-size=%s" % r.choice(["0.05", "0.3", "0.4999"])]
        if kind == "vsidsc":
            o += r.choice([[], [], ["-no-vsidsc-bump"], ["-vsidsc-mult=%d" % r.choice([2, 10, 1000])]])
            o += r.choice([[], [], ["-vsidsc-dbsize-recalc=1.1"], ["-vsidsc-lwcc"], ["-vsidsc-sample-size=0.5"]])
        if kind == "bud":
            o.append("-rsil-imp-budgets=%d" % r.choice([1, 1, 2, 3, 10]))
        if kind == "van":
            o.append("-rsil-van-halflife=%d" % r.choice([1, 1, 2, 3, 7, 30]))
        if kind in ("rsil", "van", "bud"):
            o += ["-rs-rounds=2048", "-rsil-min-gate-frac=0"]
        k = r.random()
        if k < .3:
            cs = gen.rand_ksat(r, r.randint(6, 24), r.uniform(3.4, 5.2))
        elif k < .5:
            cs = gen.circuit(r, r.randint(2, 6), r.randint(2, 9))
        elif k < .6:
            cs = gen.miter(r, r.randint(2, 4), r.randint(2, 6))
        elif k < .7:
            cs = r.choice([gen.php(4, 3), gen.php(5, 4), gen.parity(r, 8, 7)])
        elif k < .8:
            cs = gen.rand_ksat(r, r.randint(8, 14), r.uniform(.5, 2.5), (2, 3))
        else:
            cs = gen.small(r, 3, 9)
        if r.random() < .4:
            cs = gen.shuffle_vars(r, cs, r.random() < .5)
        n = max(gen.nvars(cs), 1)
        s = ["begin b%d" % i] + ["opt " + x for x in o] + ["kind %s %d" % (kind, size), "events %d" % r.choice([40, 100, 150])]
        if kind in ("rsil", "van", "bud") and r.random() < .6:
            # arbitrary conjectures, right or wrong, over distinct variables
            vs = r.sample(range(1, n + 1), n)
            bb, eq = [], []
            for _ in range(r.choice([0, 0, 1, 2, 4])):
                if vs:
                    bb.append(r.choice([-1, 1]) * vs.pop())
            while len(vs) > 1 and r.random() < .85:
                eq.append([r.choice([-1, 1]) * vs.pop() for _ in range(min(len(vs), r.choice([2, 2, 3, 3, 4, 5])))])
            s += ["eq " + " ".join(" ".join(map(str, e + [0])) for e in eq if len(e) > 1), "bb " + " ".join(map(str, bb))]
        rounds = [cs]
        while r.random() < .35 and len(rounds) < 4:
            rounds.append(gen.rand_ksat(r, n + r.choice([0, 1]), r.uniform(0, .5), (2, 3)) if n > 3 else [])
        for j, new in enumerate(rounds):
            if new:
                s.append(configs.cnfline(new))
            if len(rounds) > 1 and r.random() < .7:
                s.append("assume " + " ".join(str(r.choice([-1, 1]) * v) for v in r.sample(range(1, n + 1), min(n, r.randint(0, 3)))) + " 0")
            if r.random() < .3:
                s.append("phase " + " ".join(str(r.choice([-1, 1]) * v) for v in r.sample(range(1, n + 1), r.randint(1, n))))
            s.append("solve")
        hs.append({"name": "b%d" % i, "script": s + ["end"], "n": len(cs)})
    # long searches, looked at from some conflict on
    for i in range(c.n(60)):
        kind = "vsidsc" if i % 4 == 3 else "vsids"
        o = ["-no-pre"] + (["-extra-bump"] if i % 3 else []) + (["-no-vsidsc-bump"] if kind == "vsidsc" else []) + ["-szLBDQueue=10"] * r.choice([0, 1])
        if r.random() < .5:
            o.append("-var-decay=%s" % r.choice(["0.1", "0.5", "0.5", "0.9", "0.95"]))
        o += ["-firstReduceDB=%d" % r.choice([20, 200, 2000])] * r.choice([0, 1])
        cs = gen.shuffle_vars(r, r.choice([gen.php(9, 8), gen.php(8, 7), gen.parity(r, 40, 36), gen.rand_ksat(r, 100, 4.3)]))
        skip = r.choice([60, 100, 250, 300, 1000, 4960, 9970]) if i % 4 < 2 else 4960 + r.randint(0, 35)
        s = ["begin e%d" % i] + ["opt " + x for x in o] + ["kind %s 3" % kind, "events 150", "skip %d" % skip, configs.cnfline(cs), "solve"]
        hs.append({"name": "e%d" % i, "script": s + ["end"], "n": len(cs)})
    c.record(exe, hs)
    c.extra["conflicts_with_extra_bump"] = sum(1 for h in hs for e in h["events"] if e["e"] == "conflict" and set(e["ext"]) - set(e["inv"]))
    c.extra["long_searches"] = sum(1 for h in hs for e in h["events"] if e["e"] == "resume")
    c.extra["conflicts_with_rescaling"] = sum(1 for h in hs for e in h["events"] if e["e"] == "conflict" and e["scaled"])
    c.log(c.extra)
    kinds = collections.Counter(e["e"] for h in hs for e in h["events"])
    c.extra["event_kinds"] = dict(kinds)
    c.log(dict(kinds))
    c.validate("TraceBranch", {}, hs, rerun, cost=lambda h: len(h["events"]), what="decisions")
