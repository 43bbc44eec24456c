"""Solver configurations: command line options and component selection."""

BRANCH = ["0 0 0", "0 0 0", "1 0 0", "1 0 0", "0 1 0", "0 0 1", "0 0 1"]      # lrb vsidsc rsil


def api(r, incremental=False):
    s = r.choice("0001")
    if incremental:
        b = r.choice(["0 0 0", "0 0 0", "1 0 0"])
    else:
        b = r.choice(BRANCH)
    return "iface %s %s %d" % (s, b, r.choice([3, 3, 2]))


def options(r, a, heavy=True):
    o = []
    add = lambda p, x: o.append(x) if r.random() < p else None
    if r.random() < .35:
        o.append("-no-pre")
    else:
        add(.15, "-no-elim")
        add(.2, "-cl-lim=%d" % r.choice([0, 1, 3, 8, 1000]))
    if r.random() < .55:
        o.append("-szLBDQueue=10")
        o.append("-K=%s" % r.choice(["0.8", "0.95", "0.99"]))
    if r.random() < .55:
        o.append("-firstReduceDB=%d" % r.choice([0, 2, 5, 20]))
        o.append("-incReduceDB=%d" % r.choice([0, 1, 3, 10]))
    if r.random() < .35:
        o.append("-inprocessing=%d" % r.choice([1, 1, 2]))
    add(.15, "-sort-variables")
    add(.2, "-persistentLBD=%d" % r.choice([0, 1, 2, 5]))
    add(.12, "-no-recalculate-lbd")
    add(.12, "-keep-median-lbd")
    add(.1, "-extra-bump")
    add(.1, "-var-decay=%s" % r.choice(["0.5", "0.9", "0.99"]))
    p = a.split()
    if p[0] == "iface" and p[2] == "1":
        add(.3, "-lrb-step-size=%s" % r.choice(["0.1", "0.7"]))
    if p[0] == "iface" and p[3] == "1":
        add(.3, "-vsidsc-lwcc")
        add(.2, "-vsidsc-mult=%d" % r.choice([2, 10]))
        add(.2, "-no-vsidsc-bump")
        add(.3, "-vsidsc-dbsize-recalc=%s" % r.choice(["1", "1.2"]))
    if p[0] == "iface" and p[4] == "1":
        o.append("-rs-rounds=%d" % r.choice([2048, 2048, 8192]))
        add(.6, "-rsil-mode=%s" % r.choice(["unrestricted", "vanishing", "implicationbudgeted"]))
        add(.3, "-rsil-van-halflife=%d" % r.choice([1, 3, 20]))
        add(.3, "-rsil-imp-budgets=%d" % r.choice([1, 2, 10]))
        add(.5, "-rsil-min-gate-frac=0")
        add(.1, "-rsil-only-miters")
        add(.3, "-gate-recognition-method=%d" % r.choice([0, 1, 2, 10, 11]))
        add(.2, "-gate-tries=%d" % r.choice([1, 3]))
        add(.2, "-rs-abort-by-rrat")
        add(.2, "-rs-max-conj-size=%d" % r.choice([2, 3, 10]))
        add(.2, "-rs-remove-backbone-conj")
    return o


def aggressive(r, a):
    """frequent restarts, reductions and inprocessing"""
    o = options(r, a)
    o = [x for x in o if not x.startswith(("-szLBD", "-K=", "-firstRed", "-incRed", "-inproc", "-persist", "-no-pre"))]
    o += ["-szLBDQueue=10", "-K=%s" % r.choice(["0.9", "0.99"]), "-firstReduceDB=%d" % r.choice([1, 2, 5]), "-incReduceDB=%d" % r.choice([0, 1, 3]),
          "-inprocessing=1", "-persistentLBD=%d" % r.choice([0, 0, 1, 2])]
    if r.random() < .6:
        o.append("-no-pre")
    return o


def cnfline(cs):
    return "cnf " + " ".join(" ".join(map(str, c)) + " 0" if c else "0" for c in cs)
