"""P18: several solver threads."""
import collections
import gen, cli


def formula(r, i):
    """clauses and truth (0: small enough to be decided by the specification)"""
    k = i % 8
    if k == 0:
        return gen.planted(r, r.choice([100, 200, 300]), r.choice([3.8, 4.1]))[0], 10
    if k == 1:
        return gen.php(7, 6), 20
    if k == 2:
        return gen.php(8, 7), 20
    if k == 3:
        return gen.miter(r, 3, 4), 0
    if k == 4:
        return gen.circuit(r, r.randint(2, 4), r.randint(2, 6)), 0
    if k == 5:
        return [[r.choice([-1, 1]) * r.randint(1, 4) for _ in range(r.choice([0, 1, 2, 3]))] for _ in range(r.randint(0, 4))], 0
    return gen.small(r, 3, 9), 0


def main(c):
    r = c.rnd
    c.model("MCPortfolio", constants={"W": 2}, must_take=["Spawn", "Answer", "Stop", "Pub1", "Poll", "Join", "UserInterrupt"])
    c.model("MCPortfolio", constants={"W": c.n(4, 5)})
    exe = c.build(programs=["candy"])["candy"]
    hs = []
    for i in range(c.n(500)):
        cs, truth = formula(r, i)
        o = {}
        args = ["-threads=%d" % r.choice([2, 2, 3, 4, 5, 6, 8]), "-thread-initialization-delay=10", "-rs-rounds=2048"]
        for p, a, k in [(.8, "-model", "model"), (.25, "-test-model", "testmodel"), (.35, "-test-proof", "testproof"), (.1, "-minimize", "minimize")]:
            if r.random() < p:
                args.append(a)
                o[k] = True
        if o.get("testproof") or r.random() < .2:
            args.append("-certified-output=DIR/p.drat")
        args += ["-inprocessing=1"] * (r.random() < .2) + ["-static-propagate"] * (r.random() < .1) + ["-verb=0"] * (r.random() < .3)
        hs.append({"name": "t%d" % i, "args": args, "data": cli.render(cs), "how": r.choice(["file", "gz", "stdin"]), "o": o,
                   "pre": {"e": "clauses", "cs": cs, "truth": truth}, "n": len(cs)})
    for i in range(c.n(8, 40)):
        cs, truth = [(gen.php(12, 11), 20), (gen.planted(r, 600, 4.2)[0], 10)][i % 2]
        h = {"name": "i%d" % i, "args": ["-model", "-threads=%d" % r.choice([2, 4]), "-thread-initialization-delay=10"], "data": cli.render(cs), "how": "file",
             "o": {"model": True, "limited": True}, "pre": {"e": "clauses", "cs": cs, "truth": truth}, "n": len(cs)}
        if i % 4 < 2:
            h["args"].append("-time-limit=1")
        else:
            h["sigint"] = 2
        hs.append(h)

    def rerun(h):
        # another run can follow another schedule: look for one that fails in the same way, else keep the first
        first = h["events"]
        for _ in range(20):
            cli.run_one(exe, h, c.work)
            if h["events"][2:] == first[2:]:
                return
        if first[2]["r"]["exit"] != -999:
            h["events"] = first
    cli.run_all(exe, hs, c.work, n=4)
    c.extra["exit_codes"] = {str(k): n for k, n in sorted(collections.Counter(e["r"]["exit"] for h in hs for e in h["events"] if e["e"] == "run").items())}
    c.log(c.extra["exit_codes"])
    c.validate("TraceCli", {}, hs, rerun, cost=lambda h: h["n"], what="portfolio runs")
