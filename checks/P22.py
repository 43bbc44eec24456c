"""P22: restart and reduction policies, priority queue, bounded queue, factory."""
import collections, itertools


def main(c):
    r = c.rnd
    c.model("MCPolicy", must_take=["Learn", "Restart", "Reduce"])
    exe = c.build(["drv_policy"])["drv_policy"]
    rerun = lambda h: c.record(exe, [h])
    hs = []

    def add(lines):
        n = "p%d" % len(hs)
        hs.append({"name": n, "script": ["begin " + n] + lines + ["end"], "n": len(lines)})
    for i in range(c.n(400)):
        n = r.choice([10, 10, 11, 13, 20])
        m = r.choice([10, 12, 15, 40])
        s = ["opt -szLBDQueue=%d" % n, "opt -szTrailQueue=%d" % m, "opt -K=%s" % r.choice(["0.8", "0.8", "0.5", "0.9", "0.25", "0.99"]),
             "opt -R=%s" % r.choice(["1.4", "1.4", "1.1", "2.5", "1.25"]), "restart"]
        hi = r.choice([2, 4, 10, 60])
        base = r.randint(1, 200)
        for _ in range(r.choice([30, 60, 120])):
            k = r.random()
            if k < .62:
                s.append("c %d %d" % (r.randint(1, hi), r.choice([base, base, base + r.randint(0, 100), r.randint(1, 400)])))
            elif k < .65:
                s.append("skip %d" % r.choice([1, 5, 100, 9950, 9990, 10000]) if s.count("skip") == 0 and sum("skip" in x for x in s) < 2 else "t")
            else:
                s.append("t")
            if r.random() < .02:
                hi = r.choice([2, 4, 10, 60])
        add(s)
    for i in range(c.n(24)):
        # many restarts: the LBDs rise slowly, so that the recent average stays above the global one
        s = ["opt -szLBDQueue=10", "opt -szTrailQueue=10", "opt -K=%s" % r.choice(["0.9", "0.95", "0.99"]), "opt -R=%s" % r.choice(["1.4", "4.5"]), "restart"]
        if r.random() < .4:
            s.append("skip %d" % r.choice([9700, 10000]))
        lo, n = 2, 0
        for _ in range(r.choice([200, 400])):
            s += ["c %d %d" % (r.randint(lo, lo + 2), r.choice([50, 50, 50, 60, 90])), "t"]
            n += 1
            if n % r.choice([5, 10, 15]) == 0:
                lo += r.choice([0, 1, 1, 2])
        add(s)
    for i in range(c.n(300)):
        s = ["opt -firstReduceDB=%d" % r.choice([1, 2, 5, 100]), "opt -incReduceDB=%d" % r.choice([1, 1, 3, 50]),
             "opt -persistentLBD=%d" % r.choice([1, 2, 3, 6]), "opt -%skeep-median-lbd" % r.choice(["", "no-"]), "reduce"]
        seen = set()
        for _ in range(r.randint(5, 40)):
            k = r.random()
            if k < .6:
                for _ in range(r.choice([1, 1, 2, 5])):
                    cl = tuple(sorted(r.choice([-1, 1]) * v for v in r.sample(range(1, 90), r.randint(1, 6))))
                    if cl not in seen:
                        seen.add(cl)
                        s.append("a %d %s" % (r.choice([0, 0, 1, 2, 3, 3, 4, 5, 7, 20]), " ".join(map(str, cl))))
            elif k < .75:
                s.append("conf %d" % r.choice([1, 2, 5, 20, 100]))
            elif k < .88:
                s.append("r")
            else:
                s.append("q")
        add(s)
    for i in range(c.n(300)):
        n = r.choice([1, 2, 3, 5, 9, 17])
        s = ["heap %d" % n]
        w = lambda: r.randint(0, r.choice([1, 3, 50]))
        for _ in range(r.choice([10, 30, 60])):
            v = r.randrange(n)
            s.append("h " + r.choice(["w %d %d" % (v, w()), "w %d %d" % (v, w()), "i %d" % v, "i %d" % v, "u %d %d" % (v, w()), "m", "m",
                                      "b " + " ".join(map(str, r.sample(range(n), r.randint(0, n)))) if r.random() < .3 else "m", "x" if r.random() < .1 else "i %d" % v]))
        add(s)
    for i in range(c.n(60)):
        add(["queue %d" % r.choice([1, 2, 3, 5, 10])] + ["p %d" % r.choice([0, 1, r.randint(0, 9), r.randint(0, 10000)]) if r.random() < .93 else "f" for _ in range(r.choice([5, 20, 60]))])
    for mode in ("unrestricted", "vanishing", "implicationbudgeted"):
        for s, lrb, vc, rs, z in itertools.product([0, 1], [0, 1], [0, 1], [0, 1], [2, 3]):
            add(["opt -rsil-mode=" + mode, "build %d %d %d %d %d" % (s, lrb, vc, rs, z)])
    c.record(exe, hs)
    kinds = collections.Counter(e["e"] for h in hs for e in h["events"])
    c.extra["event_kinds"] = dict(kinds)
    c.extra["restarts"] = sum(1 for h in hs for e in h["events"] if e["e"] == "trigger" and e["r"])
    c.extra["most_restarts_in_one_history"] = max(sum(1 for e in h["events"] if e["e"] == "trigger" and e["r"]) for h in hs)
    c.log(c.extra["most_restarts_in_one_history"], dict(kinds), c.extra["restarts"], "restarts")
    c.validate("TracePolicy", {}, hs, rerun, cost=lambda h: len(h["events"]), what="policy runs")
