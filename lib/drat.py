"""Clausal proofs: generation of valid and nearly valid ones (the verdict is decided by TLC, not here)."""


def up(db, lits):
    """propagates; returns True on conflict"""
    t = set(lits)
    if any(-x in t for x in t):
        return True
    ch = True
    while ch:
        ch = False
        for c in db:
            if c & t:
                continue
            left = [x for x in c if -x not in t]
            if not left:
                return True
            if len(left) == 1:
                t.add(left[0])
                ch = True
    return False


def rup(db, c):
    return any(-x in c for x in c) or up(db, [-x for x in c])


def rat(db, c):
    return any(all(rup(db, c | (d - {-p})) for d in db if -p in d) for p in c)


def walk(r, cs, nv, length, pdel=.3, pbad=.03, ratonly=.3):
    """random proof lines over 1..nv: mostly valid lemmas"""
    db = [frozenset(c) for c in cs if not any(-x in c for x in c)]
    out = []
    for _ in range(length):
        if r.random() < pdel and db:
            c = r.choice(db)
            out.append(("d", sorted(c, key=lambda x: r.random())))
            if len(c) > 1:
                db.remove(c)
            continue
        for _try in range(40):
            c = frozenset(r.choice([-1, 1]) * v for v in r.sample(range(1, nv + 1), r.choice([k for k in (0, 1, 1, 2, 2, 2, 3) if k <= nv])))
            bad = r.random() < pbad / 10
            if bad or (r.random() >= ratonly and rup(db, c)) or (c and not rup(db, c) and rat(db, c)):
                out.append(("l", sorted(c, key=lambda x: r.random())))
                db.append(c)
                break
        if frozenset() in db:
            break
    if frozenset() not in db and r.random() < .6:
        out.append(("l", []))
    return out


def mutate(r, lines, nv):
    lines = [(k, list(c)) for k, c in lines]
    for _ in range(r.randint(1, 2)):
        if not lines:
            break
        i = r.randrange(len(lines))
        k, c = lines[i]
        m = r.randrange(7)
        if m == 0:
            del lines[i]
        elif m == 1 and c:
            c.pop(r.randrange(len(c)))
        elif m == 2 and c:
            j = r.randrange(len(c))
            c[j] = -c[j]
        elif m == 3:
            j = r.randrange(len(lines))
            lines[i], lines[j] = lines[j], lines[i]
        elif m == 4:
            lines.insert(i, ("d", list(r.choice(lines)[1])))
        elif m == 5:
            v = r.randint(1, nv)
            if v not in c and -v not in c:
                c.append(r.choice([-1, 1]) * v)
        else:
            lines.insert(i, ("l", [r.choice([-1, 1]) * v for v in r.sample(range(1, nv + 1), min(nv, r.randint(1, 3)))]))
    return lines
