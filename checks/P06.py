"""P06: every UNSAT answer comes with a valid DRAT certificate."""
import os
import gen, configs


def main(c):
    c.model("MCDrat", must_take=["Add", "Del"])
    exe = c.build(["drv_inc"])["drv_inc"]
    rerun = lambda h: c.record(exe, [h])
    r = c.rnd

    def hist(name, cs, a, opts):
        s = ["begin " + name, "limit 60"] + ["opt " + o for o in opts] + ["proof %s/%s.drat" % (c.work, name), "api " + a, configs.cnfline(cs), "solve", "end"]
        return {"name": name, "script": s, "cs": cs}
    hs = []
    for i in range(c.n(900)):
        a = configs.api(r, True) if r.random() < .9 else configs.api(r)
        cs = gen.small(r, 3, 10)
        if r.random() < .5:
            cs = gen.shuffle_vars(r, cs)
        hs.append(hist("s%d" % i, cs, a, configs.options(r, a)))
    for i in range(c.n(300)):
        a = configs.api(r, True) if r.random() < .9 else configs.api(r)
        cs = gen.shuffle_vars(r, r.choice([lambda: gen.php(5, 4), lambda: gen.parity(r, 14, 14), lambda: gen.rand_ksat(r, r.randint(14, 30), 5.2),
                                           lambda: gen.miter(r, 4, r.randint(5, 14)), lambda: gen.rand_ksat(r, 12, 7, (2, 3, 4)), lambda: gen.circuit(r, 5, 20)])())
        hs.append(hist("m%d" % i, cs, a, configs.options(r, a)))
    c.record(exe, hs)
    uns = [h for h in hs if any(e["e"] == "solve" and e["r"] == 20 for e in h["events"])]
    rest = [h for h in hs if h not in uns]
    lines = sum(e["e"] in ("lemma", "del") for h in uns for e in h["events"])
    c.extra.update(unsat_answers=len(uns), proof_lines=lines)
    c.log("%d UNSAT answers, %d proof lines" % (len(uns), lines))
    # proofs which are too long for the time budget of this tier are cut from the run (and counted)
    cap = c.n(400, 3000)
    long_ = [h for h in uns if len(h["events"]) > cap]
    c.extra["proofs_too_long_for_tier"] = len(long_)
    keep = [h for h in uns if len(h["events"]) <= cap] + [h for h in rest if len(h["events"]) <= 50] + [h for h in hs if any(e["e"] == "crash" for e in h["events"])]
    keep = list({id(h): h for h in keep}.values())
    c.validate("TraceDrat", {}, keep, rerun, cost=lambda h: sum(len(h["cs"]) + k for k in range(len(h["events"]))), what="certificates")
