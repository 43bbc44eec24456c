"""P20: cnf2aig."""
import gzip, os, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import gen, cli


def parse(out):
    """the lines of an ASCII AIGER file; whatever cannot be read counts as junk"""
    e = dict(head=[0] * 5, ins=[], outs=[], ands=[], junk=0)
    try:
        ls = out.decode().split("\n")
        if ls[-1] == "":
            ls.pop()
        else:
            e["junk"] += 1
        h = ls[0].split(" ")
        e["head"] = [int(x) for x in h[1:]]
        if h[0] != "aag" or len(e["head"]) != 5:
            raise ValueError
        m, i, la, o, a = e["head"]
        rows = [[int(x) for x in l.split(" ")] for l in ls[1:]]
        e["ins"] = [x for x, in rows[:i]]
        e["outs"] = [x for x, in rows[i + la:i + la + o]]
        e["ands"] = rows[i + la + o:]
        e["junk"] += sum(len(x) != 3 for x in e["ands"])
    except (ValueError, IndexError):
        e["junk"] += 1
    if e["junk"] or len(e["head"]) != 5 or any(abs(x) > 10 ** 8 for x in sum(e["ands"], []) + e["ins"] + e["outs"] + e["head"]):
        return dict(head=[0] * 5, ins=[], outs=[], ands=[], junk=max(1, e["junk"]))
    return e


def main(c):
    r = c.rnd
    c.model("MCAig", must_take=["UnitRoots", "MoreRoots", "Recognize"])
    exe = c.build(programs=["cnf2aig"])["cnf2aig"]
    hs = []
    for i in range(c.n(4000)):
        k = r.random()
        if k < .3:
            cs = gen.dag(r, r.randint(2, 6), r.randint(1, 8), roots=r.choice([1, 1, 1, 2, 3]), half=r.choice([0, 0, .3, .6]), tree=r.random() < .3)
            cs = cs[0] if isinstance(cs, tuple) else cs
        elif k < .5:
            cs = gen.circuit(r, r.randint(2, 6), r.randint(1, 9))
        elif k < .6:
            cs = gen.miter(r, r.randint(2, 4), r.randint(2, 6))
        elif k < .95:
            cs = gen.small(r, 2, 7)
        else:
            cs = [[r.choice([-1, 1]) * r.randint(1, 4) for _ in range(r.choice([0, 1, 2, 3, 5]))] for _ in range(r.randint(0, 5))]
        if r.random() < .3:
            cs = gen.shuffle_vars(r, cs, r.random() < .5)
        if r.random() < .2:          # a few clauses that belong to no gate
            n = max(1, gen.nvars(cs))
            cs = cs + [[r.choice([-1, 1]) * r.randint(1, n) for _ in range(r.randint(1, 3))] for _ in range(r.randint(1, 2))]
        if r.random() < .1:
            cs = cs + [list(x) for x in r.sample(cs, min(len(cs), 2))]
        if r.random() < .5:
            r.shuffle(cs)
        hs.append({"name": "a%d" % i, "cs": cs})

    hung = []

    def rec(h, again=True):
        # runs that are left after some have used up their time are dropped
        if len(hung) >= 6 and not again:
            h["events"] = None
            return h
        with tempfile.TemporaryDirectory(prefix="aig-", dir=c.work) as d:
            f = os.path.join(d, "f.cnf")
            with open(f, "wb") as o:
                o.write(cli.render(h["cs"]))
            try:
                p = subprocess.run([exe, f], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=40, cwd=d)
                rc, out = p.returncode, p.stdout
            except subprocess.TimeoutExpired:
                rc, out = -999, b""
                hung.append(h)
        h["out"] = out.decode("latin1")
        h["events"] = [{"e": "begin", "name": h["name"]}, {"e": "cnf", "cs": h["cs"]}, dict({"e": "aig", "exit": rc}, **parse(out))]
        return h
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda h: rec(h, False), hs))
    hs = [h for h in hs if h["events"] is not None]
    # the specification enumerates the valuations of the inputs of the circuit
    cap = c.n(7, 9)
    keep = [h for h in hs if len(h["events"][2]["ins"]) <= cap]
    c.extra["circuits_with_too_many_inputs"] = len(hs) - len(keep)
    c.extra["gates"] = sum(len(h["events"][2]["ands"]) for h in keep)
    c.extra["inputs_below_variables"] = sum(1 for h in keep if 0 < len(h["events"][2]["ins"]) < len({abs(x) for y in h["cs"] for x in y}))
    c.log(len(keep), "circuits,", c.extra["gates"], "gates,", c.extra["inputs_below_variables"], "with recognized gates")
    c.validate("TraceAig", {}, keep, rec, cost=lambda h: len(h["cs"]) * 2 ** len(h["events"][2]["ins"]), what="circuits")
