"""P11: the clause database keeps exactly the live clauses."""


def main(c):
    c.model("MCStorage", must_take=["DoCreate", "DoDrop", "DoStrengthen"])
    exe = c.build(["drv_store"])["drv_store"]
    r = c.rnd
    rerun = lambda h: c.record(exe, [h])

    def hist(name, nv, steps, longs=False, lens=(1, 1, 2, 2, 2, 3, 3, 4, 5)):
        s = ["begin " + name]
        if r.random() < .6:
            s.append("cert %s/%s.cert" % (c.work, name))
        cl = lambda: [r.choice([-1, 1]) * v for v in r.sample(range(1, nv + 1), min(nv, r.choice(lens)))]
        init = [cl() for _ in range(r.randint(0, 6))] + [[nv, -1] if nv > 1 else [1]]
        s.append("init " + " ".join(" ".join(map(str, x)) + " 0" for x in init))
        pr = r.choice([.05, .15, .3])
        for _ in range(steps):
            k = r.random()
            if k < .45:
                x = cl() if r.random() > .01 else []
                if r.random() < .1 and len(init) > 1:
                    x = r.choice(init)
                s.append("create %d %d %s" % (r.choice([0, 1, 2, 2, 3, 5]) if len(x) > 2 else 0, r.random() < .3, " ".join(map(str, x))))
                s[-1] = s[-1].replace("create 5", "create %d" % min(5, len(x))) if False else s[-1]
            elif k < .65:
                s.append("remove %d" % r.randrange(1000))
            elif k < .8:
                s.append("strengthen %d %d" % (r.randrange(1000), r.randrange(50)))
            elif k < .8 + pr / 2:
                s.append("reorg")
            elif k < .8 + pr:
                s.append("list")
            if longs and r.random() < .3:
                n = r.choice(longs)
                n += r.choice([-1, 0, 1, 2])
                s.append("long 1 %d %d %d" % (min(n, nv), r.choice([0, 2, 7]), r.random() < .5))
        s += ["list", "reorg", "end"]
        return {"name": name, "script": s}
    hs = [hist("s%d" % i, r.choice([2, 3, 4, 6, 10]), r.choice([10, 30, 60])) for i in range(c.n(700))]
    hs += [hist("w%d" % i, 40, 80, lens=(1, 2, 3, 8, 15, 30)) for i in range(c.n(100))]
    # lengths around powers of two, beyond what 8 and 16 bits can count
    hs += [hist("l%d" % i, 70000, 12, longs=(255, 256, 300, 4096, 32768, 65535, 65536, 69000), lens=(1, 2, 3)) for i in range(c.n(60))]
    c.record(exe, hs)
    c.validate("TraceStorage", {}, hs, rerun, cost=lambda h: sum(2 + len(str(e)) // 50 for e in h["events"]), what="database histories")
