"""Gate recognition histories (P13, P14)."""
import gen, configs


def histories(c, r, n_dag, n_small, n_mixed, big=True):
    hs = []

    def hist(name, cs, expect, model, method=None, tries=None):
        method = r.choice([0, 0, 1, 2, 10, 11]) if method is None else method
        tries = r.choice([1, 1, 2, 5, 0]) if tries is None else tries
        s = ["begin " + name, configs.cnfline(cs)]
        if expect:
            s.append("expect " + " ".join(map(str, expect)))
        s.append("analyze %d %d" % (method, tries))
        for m in model:
            s.append("prune " + " ".join(map(str, m)))
        if r.random() < .3:
            s.append("normalize")
        return {"name": name, "script": s + ["end"], "n": len(cs)}
    for i in range(n_dag):
        k = r.random()
        ni, ng = (r.randint(1, 4), r.randint(1, 6)) if k < .7 else (r.randint(3, 8), r.randint(4, 18))
        half = r.choice([0, 0, 0, .3])
        tree = r.random() < .3
        ni = 2 * ng + 2 if tree else ni
        cs, reach, m = gen.dag(r, ni, ng, roots=1 if tree else r.choice([1, 1, 2]), half=half, tree=tree)
        # with patterns, every gate of a tree is found
        hs.append(hist("d%d" % i, cs, reach if tree and not half else [], [m], r.choice([0, 10, 11, 1])))
    for i in range(n_small):
        cs = gen.small(r, 2, 7)
        m = gen.a_model(r, cs)
        hs.append(hist("s%d" % i, cs, [], [m] if m else []))
    for i in range(n_small // 3):
        # an encoding that lacks a clause, so that one of the definitions is not total or not functional
        cs, reach, m = gen.dag(r, r.randint(2, 4), r.randint(1, 3), types=("xor3", "xor3", "xor", "and3", "or3"))
        big = [k for k, cl in enumerate(cs) if len(cl) > 1]
        for _ in range(r.choice([1, 1, 1, 2])):
            if big:
                cs[big.pop(r.randrange(len(big)))] = None
        cs = [cl for cl in cs if cl is not None]
        hs.append(hist("l%d" % i, cs, [], [m] if all(any(x in m for x in cl) for cl in cs) else [], r.choice([0, 0, 10, 11])))
    for i in range(n_mixed):
        # a circuit plus further clauses over its variables; gates with repeated inputs
        cs = gen.circuit(r, r.randint(1, 4), r.randint(1, 5), polarity=r.choice([0, 0, .4]))
        n = gen.nvars(cs)
        for _ in range(r.choice([0, 1, 1, 2, 4])):
            k = r.randint(1, min(3, n))
            cs.append([r.choice([-1, 1]) * v for v in r.sample(range(1, n + 1), k)])
        r.shuffle(cs)
        m = gen.a_model(r, cs)
        hs.append(hist("x%d" % i, cs, [], [m] if m else []))
    return hs
