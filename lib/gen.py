"""Random formulas.  Everything is drawn from the check's seeded generator."""
import itertools


def rclause(r, nv, k):
    vs = r.sample(range(1, nv + 1), min(k, nv))
    return [v if r.random() < .5 else -v for v in vs]


def rand_ksat(r, nv, ratio=None, ks=(3,)):
    ratio = ratio if ratio is not None else r.uniform(2.5, 5.5)
    return [rclause(r, nv, r.choice(ks)) for _ in range(int(nv * ratio))]


def mixed(r, nv):
    """short clauses, units, duplicates, tautologies, repeated literals"""
    out = []
    for _ in range(r.randint(1, int(nv * 4))):
        k = r.choice([1, 2, 2, 2, 3, 3, 3, 4, 5])
        if r.random() < .85:
            out.append(rclause(r, nv, k))
        else:
            out.append([r.choice([-1, 1]) * r.randint(1, nv) for _ in range(k)])
    for _ in range(r.randint(0, 2)):
        out.append(list(r.choice(out)))
    return out


def php(p, h):
    v = lambda i, j: i * h + j + 1
    cs = [[v(i, j) for j in range(h)] for i in range(p)]
    for j in range(h):
        for a, b in itertools.combinations(range(p), 2):
            cs.append([-v(a, j), -v(b, j)])
    return cs


def xor_clauses(vs, rhs):
    cs = []
    for bits in itertools.product([0, 1], repeat=len(vs)):
        if sum(bits) % 2 != rhs:
            cs.append([(-v if b else v) for v, b in zip(vs, bits)])
    return cs


def parity(r, nv, ne):
    """random xor system"""
    cs = []
    for _ in range(ne):
        k = r.choice([2, 3, 3, 4])
        cs += xor_clauses(r.sample(range(1, nv + 1), min(k, nv)), r.randint(0, 1))
    return cs


def circuit(r, ni, ng, assert_root=True, polarity=0.0):
    """Tseitin encoding of a random circuit.  Returns clauses; last variable is the root."""
    cs = []
    n = ni
    sig = list(range(1, ni + 1))
    for _ in range(ng):
        n += 1
        o = n
        t = r.choice(["and", "or", "xor", "ite", "and", "or", "and3", "or3", "eq"])
        pick = lambda: r.choice(sig[-max(6, ni):] if r.random() < .8 else sig) * r.choice([-1, 1])
        a, b, c = pick(), pick(), pick()
        f, g = [], []
        if t in ("and", "and3"):
            ins = [a, b] + ([c] if t == "and3" else [])
            f = [[-o, x] for x in ins]
            g = [[o] + [-x for x in ins]]
        elif t in ("or", "or3"):
            ins = [a, b] + ([c] if t == "or3" else [])
            f = [[-o] + ins]
            g = [[o, -x] for x in ins]
        elif t == "xor":
            f = [[-o, a, b], [-o, -a, -b]]
            g = [[o, -a, b], [o, a, -b]]
        elif t == "eq":
            f = [[-o, a]]
            g = [[o, -a]]
        else:
            f = [[-o, -a, b], [-o, a, c]]
            g = [[o, -a, -b], [o, a, -c]]
        cs += f
        if r.random() >= polarity:
            cs += g
        sig.append(o)
    cs = [c for c in cs if not any(-l in c for l in c)]
    cs = [list(dict.fromkeys(c)) for c in cs]
    if assert_root:
        cs.append([n])
    return cs


def miter(r, ni, ng):
    """two copies of a circuit (one with an optional small change) with outputs asserted different"""
    base = circuit(r, ni, ng, False)
    top = ni + ng
    second = [[(l if abs(l) <= ni else (abs(l) + ng) * (1 if l > 0 else -1)) for l in c] for c in base]
    if r.random() < .4 and second:
        i = r.randrange(len(second))
        j = r.randrange(len(second[i]))
        second[i][j] = -second[i][j]
    a, b = ni + ng, ni + 2 * ng
    o = ni + 2 * ng + 1
    cs = base + second + [[-o, a, b], [-o, -a, -b], [o, -a, b], [o, a, -b], [o]]
    return [list(dict.fromkeys(c)) for c in cs if not any(-l in c for l in c)]


def equivs(r, nv):
    """implication cycles: equivalent literals plus some larger clauses"""
    cs = []
    order = list(range(1, nv + 1))
    r.shuffle(order)
    order = [v * r.choice([-1, 1]) for v in order]
    for a, b in zip(order, order[1:]):
        if r.random() < .8:
            cs.append([-a, b])
        if r.random() < .6:
            cs.append([a, -b])
    if r.random() < .5:
        cs.append([order[0], order[-1]])
    for _ in range(r.randint(0, nv)):
        cs.append(rclause(r, nv, r.choice([2, 3, 4])))
    return cs


def subsumed(r, nv):
    """clauses which subsume or strengthen one another, plus long clauses"""
    cs = []
    for _ in range(r.randint(2, nv)):
        c = rclause(r, nv, r.choice([2, 3, 3]))
        cs.append(c)
        for _ in range(r.randint(0, 2)):
            ext = [l for l in rclause(r, nv, r.randint(1, 4)) if l not in c and -l not in c]
            d = c + ext
            if r.random() < .5:
                i = r.randrange(len(c))
                d = d[:i] + [-d[i]] + d[i + 1:]
            r.shuffle(d)
            cs.append(d)
    r.shuffle(cs)
    return cs


def small(r, lo=2, hi=9):
    """a formula small enough for the oracle to decide"""
    nv = r.randint(lo, hi)
    k = r.randrange(12)
    if k < 3:
        return rand_ksat(r, nv, ks=(2, 3, 3))
    if k < 5:
        return mixed(r, nv)
    if k == 5:
        return parity(r, max(3, nv), r.randint(2, nv))
    if k == 6:
        h = r.choice([2, 2, 3])
        return php(h + r.choice([0, 1]), h)
    if k == 7:
        return equivs(r, nv)
    if k == 8:
        return subsumed(r, max(3, nv))
    if k in (9, 10):
        return circuit(r, r.randint(2, 4), r.randint(2, max(2, hi - 2)), r.random() < .8, r.choice([0, 0, .4]))
    return miter(r, r.randint(2, 3), r.randint(2, 4))


def medium(r):
    """needs some search: dozens to hundreds of conflicts"""
    k = r.randrange(8)
    if k < 3:
        return rand_ksat(r, r.randint(30, 70), r.uniform(4.0, 4.8))
    if k == 3:
        return parity(r, r.randint(15, 30), r.randint(12, 30))
    if k == 4:
        h = r.choice([4, 5, 6])
        return php(h + r.choice([0, 1]), h)
    if k == 5:
        return miter(r, r.randint(4, 8), r.randint(10, 40))
    if k == 6:
        return circuit(r, r.randint(4, 10), r.randint(20, 80), True, r.choice([0, .3]))
    return rand_ksat(r, r.randint(25, 50), r.uniform(5, 8), ks=(3, 4, 2, 3, 3))


def planted(r, n, ratio, ks=(3,)):
    """satisfiable by construction; returns (clauses, model)"""
    m = {v: r.random() < .5 for v in range(1, n + 1)}
    cs = []
    while len(cs) < n * ratio:
        c = rclause(r, n, r.choice(ks))
        if any((l > 0) == m[abs(l)] for l in c):
            cs.append(c)
    return cs, m


def hide(r, cs, p):
    """replaces some clauses c by sets of longer clauses with fresh variables which together imply c: conflicts then produce
    learnt clauses that subsume problem clauses, and few other clauses imply the replaced one"""
    out = []
    top = nvars(cs)
    for c in cs:
        if r.random() < p and len(c) >= 3:
            t = r.randrange(3)
            if t == 0:
                out += [c + [top + 1], [-top - 1, top + 2], [-top - 2] + c]
                top += 2
            elif t == 1:
                out += [c + [top + 1], c + [-top - 1]]
                top += 1
            else:
                out += [c + [top + 1], [-top - 1, top + 2], [-top - 1, top + 3], [-top - 2, -top - 3] + c]
                top += 3
        else:
            out.append(c)
    r.shuffle(out)
    return out


def hidden(r):
    n = r.randint(30, 44)
    if r.random() < .5:
        return hide(r, rand_ksat(r, n, r.uniform(8.2, 9.4), (4,)), r.uniform(.3, .9))
    return hide(r, rand_ksat(r, 2 * n, r.uniform(3.8, 4.2)), r.uniform(.3, .9))


def shuffle_vars(r, cs, gaps=False):
    vs = sorted({abs(l) for c in cs for l in c})
    tgt = list(range(1, len(vs) + 1 + (r.randint(0, 3) if gaps else 0)))
    r.shuffle(tgt)
    m = dict(zip(vs, tgt))
    out = [[(m[abs(l)] if l > 0 else -m[abs(l)]) for l in c] for c in cs]
    r.shuffle(out)
    return out


def nvars(cs):
    return max([abs(l) for c in cs for l in c] + [0])


def satisfied(cs, m):
    m = set(m)
    return all(any(l in m for l in c) for c in cs)


def dag(r, ni, ng, types=("and", "or", "xor", "and", "or", "eq", "and3", "or3", "xor3"), roots=1, half=0.0, tree=False):
    """Full Tseitin encoding of a random circuit whose gates have distinct inputs, with unit roots that a random input
    assignment satisfies.  Returns (clauses, gate variables below the roots, model)."""
    val = {v: r.random() < .5 for v in range(1, ni + 1)}
    sig = list(range(1, ni + 1))
    cs, deps, defs = [], {}, {}
    for o in range(ni + 1, ni + ng + 1):
        t = r.choice(types)
        k = 1 if t == "eq" else 3 if t.endswith("3") else 2
        pool = sig[-max(5, ni):] if r.random() < .8 else sig
        if len(pool) < k:
            t, k = "eq", 1
        ins = [v * r.choice([-1, 1]) for v in r.sample(pool, k)]
        b = [val[abs(x)] == (x > 0) for x in ins]
        if t.startswith("and"):
            f, g, val[o] = [[-o, x] for x in ins], [[o] + [-x for x in ins]], all(b)
        elif t.startswith("or"):
            f, g, val[o] = [[-o] + ins], [[o, -x] for x in ins], any(b)
        elif t == "eq":
            f, g, val[o] = [[-o, ins[0]]], [[o, -ins[0]]], b[0]
        else:
            cl = xor_clauses(ins + [o], 0)
            f, g, val[o] = [c for c in cl if -o in c], [c for c in cl if o in c], sum(b) % 2 == 1
        if r.random() < half:
            g = []
        if tree:
            sig = [v for v in sig if v not in [abs(x) for x in ins]]
        deps[o] = [abs(x) for x in ins]
        defs[o] = f + g
        sig.append(o)
    rts = {ni + ng} | {r.choice(sorted(deps)) for _ in range(roots - 1)}
    cs += [[v if val[v] else -v] for v in rts]
    todo, reach = list(rts), set()
    while todo:
        v = todo.pop()
        if v in deps and v not in reach:
            reach.add(v)
            todo += deps[v]
    # gates above which there is no root would hide the gates below them
    cs += [c for v in reach for c in defs[v]]
    r.shuffle(cs)
    return cs, sorted(reach), [v if val[v] else -v for v in sorted(val) if v <= nvars(cs)]


def a_model(r, cs, limit=16):
    """some model by enumeration in random order, or None"""
    n = nvars(cs)
    if n > limit:
        return None
    flip = [r.random() < .5 for _ in range(n)]
    for m in range(1 << n):
        a = [(v + 1) if ((m >> v) & 1) != flip[v] else -(v + 1) for v in range(n)]
        s = set(a)
        if all(any(x in s for x in c) or any(-x in c for x in c) for c in cs):
            return a
    return None
