"""P23: the problem store and its fingerprints."""
import gen, configs


def main(c):
    r = c.rnd
    c.model("MCProblem", must_take=["Read", "Permute", "Normalize", "Flip"])
    exe = c.build(["drv_problem"])["drv_problem"]
    hs = []

    def clause(n):
        k = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 6]) if r.random() < .5 else r.randint(1, 4)
        return [r.choice([-1, 1]) * r.randint(1, n) for _ in range(k)]

    def formula():
        n = r.choice([2, 3, 4, 6, 9, 12, 30])
        if r.random() < .4:
            cs = gen.small(r, 2, 9)
        else:
            cs = [clause(n) for _ in range(r.randint(0, 10))]
        if r.random() < .1 and cs:
            cs += [list(x) for x in r.sample(cs, 1)]
        if r.random() < .25:        # gaps between the names
            m = {}
            cs = [[(1 if x > 0 else -1) * m.setdefault(abs(x), len(m) * r.choice([1, 3, 40]) + abs(x)) for x in y] for y in cs]
        return cs
    for i in range(c.n(2500)):
        s = ["begin p%d" % i, "limit 10"]
        cs = formula()
        s.append(configs.cnfline(cs).replace("cnf", "read", 1))
        used = sorted({abs(x) for y in cs for x in y}) or [1]
        for _ in range(r.randint(2, 6)):
            k = r.random()
            if k < .1:
                more = formula()[:3]
                s.append(configs.cnfline(more).replace("cnf", "read", 1))
                cs = cs + more
                used = sorted({abs(x) for y in cs for x in y}) or [1]
            elif k < .15:
                s.append("new")
            elif k < .25:
                s.append("normalize")
            elif k < .55:
                m = gen.a_model(r, cs) if r.random() < .5 and len(used) < 13 else None
                m = list(m) if m else [r.choice([-1, 1]) * v for v in used]
                if r.random() < .3:
                    m = m[:len(m) // 2] if r.random() < .5 else r.sample(m, max(0, len(m) - 1))
                if r.random() < .3 and m:
                    j = r.randrange(len(m))
                    m[j] = -m[j]
                s.append("check " + " ".join(map(str, m)))
            elif k < .65:
                s.append("print")
            else:
                s.append("hash")
        hs.append({"name": "p%d" % i, "script": s + ["end"], "n": len(s)})
    for i in range(c.n(150)):
        data = [r.choice([0, 255, r.randrange(256)]) for _ in range(r.choice([0, 1, 54, 55, 56, 57, 63, 64, 65, 119, 120, 128, r.randint(0, 200)]))]
        cuts = sorted(r.randint(0, len(data)) for _ in range(r.choice([0, 0, 1, 2, 5])))
        chunks = [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)])]
        hs.append({"name": "d%d" % i, "script": ["begin d%d" % i, "md5 " + " ".join(" ".join(map(str, x + [-1])) for x in chunks), "end"], "n": 2})
    c.record(exe, hs)
    c.validate("TraceProblem", {}, hs, lambda h: c.record(exe, [h]), cost=lambda h: h["n"], what="histories of stored problems")
