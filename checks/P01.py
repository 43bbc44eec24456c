"""P01: single-shot answers are right for every formula and configuration."""
import gen, configs
CONSTS = {"CheckAnswers": "TRUE", "CheckCore": "FALSE", "CheckLearn": "FALSE", "CheckTerm": "TRUE"}


def hist(name, cs, a, opts, full=True, wit=None, limit=60):
    s = ["begin " + name, "limit %d" % limit] + ["opt " + o for o in opts] + ["api " + a, configs.cnfline(cs)]
    if not full:
        s.append("full 0")
    if wit:
        s.append("wit " + " ".join(map(str, wit)) + " 0")
    return {"name": name, "script": s + ["solve", "end"], "cs": cs, "full": full}


def main(c):
    exe = c.build(["drv_inc"])["drv_inc"]
    rerun = lambda h: c.record(exe, [h])
    r = c.rnd
    # small formulas: the specification decides satisfiability itself
    hs = []
    for i in range(c.n(1600)):
        a = configs.api(r)
        cs = gen.small(r, 2, 10)
        if r.random() < .5:
            cs = gen.shuffle_vars(r, cs, True)
        hs.append(hist("s%d" % i, cs, a, configs.options(r, a)))
    c.record(exe, hs)
    c.log("recorded", len(hs))
    c.validate("TraceIpasir", CONSTS, hs, rerun, cost=lambda h: 20 + len(h["cs"]), what="small formulas x configurations")
    # larger formulas, several configurations each: models are checked, and a model found by one
    # configuration refutes an UNSAT answer of another
    cross(c, exe, rerun, "m", [(gen.medium(r), configs.options, 6) for i in range(c.n(60))], "medium formulas, cross-configuration witnesses")
    # frequent restarts, reductions and inprocessing on formulas whose clauses are not implied by one another: a constraint that
    # gets lost anywhere shows as a violated clause, one that is invented as a wrong UNSAT
    cross(c, exe, rerun, "h", [(gen.hidden(r), configs.aggressive, 4) for i in range(c.n(150))], "hidden clauses, aggressive reduction and inprocessing")


def cross(c, exe, rerun, tag, formulas, what):
    r = c.rnd
    hs = []
    groups = []
    for i, (cs, opts, n) in enumerate(formulas):
        if r.random() < .5:
            cs = gen.shuffle_vars(r, cs)
        g = []
        for k in range(n):
            a = configs.api(r) if k else "iface 0 0 0 0 3"
            g.append(hist("%s%d.%d" % (tag, i, k), cs, a, opts(r, a) if k else [], False, limit=100))
        groups.append(g)
        hs += g
    c.record(exe, hs)
    stat = {}
    for g in groups:
        wit = None
        for h in g:
            for e in h["events"]:
                if e["e"] == "solve":
                    stat[e["r"]] = stat.get(e["r"], 0) + 1
                    if e["r"] == 10 and gen.satisfied(h["cs"], e["m"]):
                        wit = wit or e["m"]
        for h in g:
            if wit:
                h["script"].insert(-2, "wit " + " ".join(map(str, wit)) + " 0")
                for e in h["events"]:
                    if e["e"] == "solve":
                        e["w"] = wit
    c.extra[tag + "_answers"] = {str(k): v for k, v in stat.items()}
    c.log("recorded", len(hs), stat)
    c.validate("TraceIpasir", CONSTS, hs, rerun, cost=lambda h: 5 + len(h["cs"]), what=what)
