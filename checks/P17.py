"""P17: the command line program."""
import gen, configs, cli


def flags(r, h):
    """options of the program proper, described for the specification"""
    a, o = h["args"], h["o"]
    if r.random() < .6:
        a.append("-model")
        o["model"] = True
    if r.random() < .2:
        a.append("-minimize")
        o["minimize"] = True
        if r.random() < .3:
            a.append("-minimize-pruned")
            o["pruned"] = True
        if r.random() < .3:
            a.append("-minimize-minimal")
    if r.random() < .2:
        a.append("-test-model")
        o["testmodel"] = True
    if r.random() < .2:
        a.append("-test-proof")
        o["testproof"] = True
        if r.random() < .5:
            a.append("-certified-output=DIR/p.drat")
    elif r.random() < .1:
        a.append("-certified-output=DIR/p.drat")
    if r.random() < .1:
        t = r.choice([1, 3, 5, 100])
        a.append("-test-limit=%d" % t)
        o["testlimit"] = t
    if r.random() < .04:
        a.append("-gate-stats")
        o["gatestats"] = True
    if r.random() < .05:
        a.append("-memory-limit=1")
        o["limited"] = True
    if r.random() < .3:
        a.append("-verb=%d" % r.choice([0, 0, 2]))
    if r.random() < .05:
        a.append(r.choice(["-foo", "-modell", "-no-such", "-threads=17", "-threads=0", "-verb=3", "-K=1.5", "-test-limit=-1", "-threads=x", "-verb=", "-var-decay=0x"]))
        o["badoption"] = True
    r.shuffle(a)


def damage(r, s):
    k = r.randrange(len(s) + 1)
    return r.choice([s[:k], s[:k] + r.choice("x%-pc+ 07") + s[k:], s[:k] + s[k + 1:], s + r.choice(["%\n0\n", "1 2", "-", "1 -", "x", "p cnf 3", "p cn 1 1\n"])])


def main(c):
    r = c.rnd
    c.model("MCPortfolio", constants={"W": 1}, must_take=["Poll", "Report"])
    exe = c.build(programs=["candy"])["candy"]
    hs = []
    for i in range(c.n(2500)):
        k = r.random()
        cs = gen.small(r, 2, 8) if k < .6 else gen.circuit(r, r.randint(1, 4), r.randint(1, 5)) if k < .75 else gen.miter(r, 2, 2) if k < .85 else \
            [[r.choice([-1, 1]) * r.randint(1, 4) for _ in range(r.choice([0, 1, 2, 3]))] for _ in range(r.randint(0, 4))]
        s = cli.render(cs).decode()
        if r.random() < .08:
            s = damage(r, s)
        if any(len(t) > 8 for t in s.split()):
            continue
        iface = configs.api(r).split()
        args = configs.options(r, " ".join(iface))
        args += ["-static-propagate"] * (iface[1] == "1") + ["-use-lrb"] * (iface[2] == "1") + ["-use-vsidsc"] * (iface[3] == "1") + ["-rsil-enable"] * (iface[4] == "1")
        if iface[4] == "1":
            args.append("-advice-size=" + iface[5])
        elif r.random() < .25:
            args += ["-rsar-enable", "-rs-rounds=2048", "-rsar-min-gatecount=%d" % r.choice([1, 2, 5])]
            args += ["-rsar-heur-idc=2"] * r.choice([0, 1])
        h = {"name": "c%d" % i, "args": args, "data": s.encode(), "how": r.choice(["file", "file", "file", "gz", "stdin"]), "o": {"lines": True}, "pre": {"e": "text", "t": list(s.encode())}}
        flags(r, h)
        h["at"] = r.randint(0, len(h["args"]))
        hs.append(h)
    cli.run_all(exe, hs, c.work)
    c.extra["exit_codes"] = {str(k): n for k, n in sorted(__import__("collections").Counter(e["r"]["exit"] for h in hs for e in h["events"] if e["e"] == "run").items())}
    c.log(c.extra["exit_codes"])
    c.validate("TraceCli", {}, hs, lambda h: cli.run_one(exe, h, c.work), cost=lambda h: len(h["data"]), what="runs")
    # limits and interrupts on formulas that cannot be solved in time
    hs = []
    for i in range(c.n(16, 60)):
        if i % 2:
            cs, truth = gen.php(12, 11), 20
        else:
            cs, truth = gen.planted(r, 600, 4.2)[0], 10
        args = ["-model"] + ["-use-lrb"] * r.choice([0, 1]) + ["-inprocessing=1"] * r.choice([0, 1]) + ["-static-propagate"] * r.choice([0, 0, 1])
        h = {"name": "i%d" % i, "args": args, "data": cli.render(cs), "how": "file", "o": {"model": True, "limited": True}, "pre": {"e": "clauses", "cs": cs, "truth": truth}}
        if i % 4 < 2:
            h["args"].append("-time-limit=1")
        else:
            h["sigint"] = 2
        hs.append(h)
    cli.run_all(exe, hs, c.work, n=6)
    c.extra["interrupted"] = [e["r"]["s"] if e["e"] == "run" else "killed" for h in hs for e in h["events"][2:]]
    c.log("limited runs", c.extra["interrupted"])
    c.validate("TraceCli", {}, hs, lambda h: cli.run_one(exe, h, c.work), what="limits and interrupts")
