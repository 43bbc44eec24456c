"""Histories of the incremental interface."""
import json, os, re, subprocess
import gen, configs, vlib


def tlc_walks(c, num, nv=5, depth=30, tag="g"):
    """behaviours generated by TLC from GenIpasir, as scripts"""
    cfg = os.path.join(c.work, "gen-%s.cfg" % tag)
    open(cfg, "w").write("SPECIFICATION GSpec\nCONSTANTS NV = %d MaxLen = 3 Depth = %d CheckAnswers = FALSE CheckCore = FALSE "
                         "CheckLearn = FALSE CheckTerm = FALSE\nCHECK_DEADLOCK FALSE\n" % (nv, depth))
    rc, out = c._tlc("GenIpasir", cfg, 1, extra=["-simulate", "num=%d" % num, "-depth", str(depth + 5), "-seed", str(c.seed + nv)])
    res = []
    for m in re.finditer(r'^"HIST (.*)"$', out, re.M):
        res.append(json.loads(m.group(1).replace('\\"', '"')))
    if len(res) < num // 2:
        raise vlib.CheckError("GenIpasir produced %d of %d walks\n%s" % (len(res), num, out[-1000:]))
    c.extra["tlc_generated_walks"] = c.extra.get("tlc_generated_walks", 0) + len(res)
    return res


def walk_script(name, w, a, opts):
    s = ["begin " + name] + ["opt " + o for o in opts] + ["api " + a]
    for op, arg in w:
        if op in ("add",):
            s.append("add " + " ".join(map(str, arg)) + " 0")
        elif op == "term":
            s.append("noterm" if arg[0] < 0 else "term %d" % arg[0])
        elif op in ("assume", "learn"):
            s.append("%s %d" % (op, arg[0]))
        elif op == "solve":
            s.append("solve")
    s += ["noterm", "solve", "end"]
    return {"name": name, "script": s, "size": len(w)}


def rand_api(r):
    return "ipasir" if r.random() < .6 else configs.api(r, True)


def small_history(r, name, nv=None, rounds=None, learn=False, term=False, many_assumptions=False, a=None, opts=None):
    nv = nv or r.randint(2, 9)
    a = a or rand_api(r)
    opts = configs.options(r, a) if opts is None else opts
    s = ["begin " + name] + ["opt " + o for o in opts] + ["api " + a]
    grow = r.random() < .4
    cur = r.randint(1, nv) if grow else nv
    rounds = rounds or r.randint(1, 6)
    style = r.randrange(4)
    n = 0
    act = []
    for k in range(rounds):
        if style == 0 and k == 0:
            cs = gen.small(r, 2, nv)
            cur = max(cur, gen.nvars(cs))
            nv = max(nv, cur)
        elif style == 1:
            # activation literal: the clauses of this round can be switched off again
            cur = max(cur, 2)
            x = nv + len(act) + 1
            act.append(x)
            cs = [[-x] + gen.rclause(r, cur, r.choice([1, 2, 2, 3])) for _ in range(r.randint(1, cur * 2))]
        else:
            cs = [gen.rclause(r, cur, r.choice([1, 2, 2, 3, 3, 3, 4])) for _ in range(r.randint(0, int(cur * 2.2)))]
            if r.random() < .1:
                cs.append([r.choice([-1, 1]) * r.randint(1, cur) for _ in range(4)])
        n += len(cs)
        for x in cs:
            s.append("add " + " ".join(map(str, x)) + " 0")
        if learn and r.random() < .7:
            s.append(r.choice(["learn %d" % r.choice([1, 2, 3, 4, 10, 100])] * 5 + ["nolearn"]))
        if term and r.random() < .5:
            s.append(r.choice(["noterm", "noterm0", "noterm0", "term 0", "term 1", "term 2", "term 3", "term 5", "term 20"]))
        as_ = []
        if act and r.random() < .8:
            as_ += [x * r.choice([1, 1, 1, -1]) for x in act if r.random() < .8]
        m = r.choice([0, 1, 2, 3, 4, cur]) if many_assumptions else r.choice([0, 0, 1, 1, 2, 3])
        as_ += [r.choice([-1, 1]) * v for v in r.sample(range(1, cur + 1), min(cur, m))]
        if r.random() < .1 and as_:
            as_.append(r.choice(as_) * r.choice([1, -1]))
        if r.random() < .05:
            as_.append(r.choice([-1, 1]) * (nv + 12))
        r.shuffle(as_)
        s += ["assume %d" % x for x in as_]
        s.append("solve")
        if r.random() < .1:
            s.append("solve")
        if grow:
            cur = min(nv, cur + r.randint(0, 2))
    if term:
        s += [r.choice(["noterm", "noterm0"]), "solve"]
    s.append("end")
    return {"name": name, "script": s, "size": n * rounds}


def side_by_side(r, name, k=2, **kw):
    """several solvers in one process whose histories are interleaved at random"""
    a = rand_api(r)
    opts = configs.options(r, a)
    hs = [small_history(r, name, a=a, opts=opts, rounds=r.randint(1, 4), **kw) for _ in range(k)]
    head = 2 + len(opts)
    tails = [h["script"][head:-1] for h in hs]
    s = hs[0]["script"][:head]
    while any(tails):
        j = r.choice([i for i in range(k) if tails[i]])
        s.append("use %d" % j)
        for _ in range(r.choice([1, 1, 2, 5, 20])):
            if tails[j]:
                s.append(tails[j].pop(0))
    return {"name": name, "script": s + ["end"], "size": sum(h["size"] for h in hs)}


def planted_history(r, name, nv, rounds=5, a=None, opts=None, ratio=4.2, limit=90, learn=False):
    """all clauses are satisfied by a hidden valuation P; assumptions partly follow P, so P refutes a wrong UNSAT"""
    a = a or rand_api(r)
    opts = configs.options(r, a) if opts is None else opts
    P = [v if r.random() < .5 else -v for v in range(1, nv + 1)]
    Ps = set(P)
    s = ["begin " + name, "limit %d" % limit] + ["opt " + o for o in opts] + ["api " + a, "full 0", "wit " + " ".join(map(str, P)) + " 0"]
    per = int(nv * ratio / rounds)
    if learn:
        s.append("learn 8")
    for k in range(rounds):
        cs = []
        while len(cs) < per:
            x = gen.rclause(r, nv, 3)
            if any(l in Ps for l in x):
                cs.append(x)
        s.append(configs.cnfline(cs))
        for _ in range(r.randint(1, 3)):
            as_ = r.sample(P, r.randint(0, 6))
            if r.random() < .4:
                as_ += [-l for l in r.sample(P, r.randint(1, 6)) if l not in as_]
            s += ["assume %d" % x for x in as_]
            s.append("solve")
    s.append("end")
    return {"name": name, "script": s, "size": 50}


def hard(r):
    """cannot be decided in the time limit by any of the configurations"""
    return gen.php(12, 11) if r.random() < .5 else gen.rand_ksat(r, 360, 4.5)
