"""P08: reading DIMACS gives exactly the formula of the text, for every layout and size."""
import gzip, os
import gen


def main(c):
    c.model("MCDimacs", must_take=["SkipSpaceStep", "ReadNumber", "Finish"])
    if c.tier == "thorough":
        c.model("MCDimacs", constants={"Block": 3, "MaxLen": 7, "Alphabet": "{32, 10, 45, 49, 48}"})
    exe = c.build(["drv_dimacs"])["drv_dimacs"]
    r = c.rnd
    ws = lambda: r.choice([" ", " ", " ", "  ", "\t", "\n", "\r\n", " \n ", "\n\n"])
    hs = []

    def render(cs, well=True):
        s = ""
        if r.random() < .7:
            s += r.choice(["", "c hello\n", "c\n", "c 1 2 0\n", "\n", "c p cnf 9 9\n", "c\t x\r\n"])
            s += "p cnf %d %d%s" % (gen.nvars(cs) + r.choice([0, 0, 3]), len(cs) + r.choice([0, 0, 1]), r.choice(["\n", " \n", "\r\n", "\n\n"]))
        for cl in cs:
            if r.random() < .15:
                s += r.choice(["c comment -4 0\n", "c\n", "cfoo 1\n", "  c x\n"])
            s += "".join(r.choice(["", "", "", "+", "0"] if l > 0 and r.random() < .1 else [""]) + str(l) + ws() for l in cl) + "0"
            s += r.choice(["\n", "\n", "\n", " \n", " ", "\r\n", "\n\n"])
        if r.random() < .3:
            s = s.rstrip()
        return s

    def put(name, data, gz):
        p = os.path.join(c.work, name + (".cnf.gz" if gz else ".cnf"))
        (gzip.open(p, "wb", 1) if gz else open(p, "wb")).write(data)
        return p

    def rclauses():
        nv = r.choice([1, 2, 5, 9, 30, 1000])
        cs = []
        for _ in range(r.randint(0, 8)):
            k = r.choice([0, 1, 1, 2, 3, 3, 5])
            cs.append([r.choice([-1, 1]) * r.randint(1, nv) for _ in range(k)])
        return cs
    # small texts, parsed by the specification itself
    for i in range(c.n(1500)):
        s = render(rclauses())
        if r.random() < .35 and s:       # damage
            k = r.randrange(len(s))
            s = r.choice([s[:k], s[:k] + r.choice("x%-pc+ 07") + s[k:], s[:k] + s[k + 1:], s + r.choice(["%\n0\n", "1 2", "-", "1 -", "x", "p cnf 3", "p cn 1 1\n"])])
        data = s.encode()
        if any(len(t) > 8 for t in s.split()):
            continue
        p = put("t%d" % i, data, r.random() < .2)
        hs.append({"name": "t%d" % i, "script": ["begin t%d" % i, "limit 10", ("file " if r.random() < .8 else "stdin ") + p, "end"],
                   "pre": {"e": "text", "t": list(data)}, "path": p})
    # numbers at the edge of the range
    for i, (tok, ok) in enumerate([("2147483648", 0), ("-2147483648", 0), ("4294967296", 0), ("4611686018427387904", 0), ("9223372036854775808", 0),
                                   ("18446744073709551616", 0), ("-9223372036854775808", 0), ("100000000", 1), ("-99999999", 1)]):
        p = put("e%d" % i, ("p cnf 3 2\n1 2 0\n%s 3 0\n" % tok).encode(), False)
        pre = {"e": "tokens", "cs": [[1, 2], [int(tok), 3]]} if ok else {"e": "text", "t": [120]}
        hs.append({"name": "e%d" % i, "script": ["begin e%d" % i, "limit 10", "file " + p, "end"], "pre": pre, "path": p})
    # large files: everything interesting happens near the block boundaries (2^20 bytes)
    for i in range(c.n(60)):
        B = 1 << 20
        cs = [[r.choice([-1, 1]) * r.randint(1, 99999) for _ in range(r.choice([1, 2, 3, 8]))] for _ in range(r.randint(5, 40))]
        body = render(cs)
        first = r.random() < .5
        style = r.randrange(4)
        tail = len(body) - r.randint(0, len(body))
        npad = B * r.choice([1, 1, 2]) - tail
        if style == 0:
            pad = ("c " + "x" * r.choice([10, 60, 77]) + "\n") * (npad // 12)
            pad = pad[:npad - 1] + "\n" if npad else ""
            k = pad.rfind("\n", 0, len(pad) - 1)
            pad = pad if pad[k + 1:k + 2] in ("c", "") else pad[:k + 1] + "c" * (len(pad) - k - 2) + "\n"
        elif style == 1:
            pad = "\n" * npad
        elif style == 2:
            pad = " " * npad                    # no line end anywhere in the block
        else:
            pad = "c" + "y " * ((npad - 2) // 2) + "\n"
        extra = []
        if r.random() < .4:
            extra = [[r.choice([-1, 1]) * r.randint(1, 9) for _ in range(3)] for _ in range(200)]
        data = (pad + body + " " + " ".join(" ".join(map(str, x)) + " 0" for x in extra)).encode()
        if r.random() < .6:
            data += b"\n"
        p = put("b%d" % i, data, r.random() < .3)
        hs.append({"name": "b%d" % i, "script": ["begin b%d" % i, "limit 10", "file " + p, "end"], "pre": {"e": "tokens", "cs": cs + extra}, "path": p})
    # real clauses throughout (several blocks), one clause per line / several lines per clause / one single line
    for i in range(c.n(3, 12)):
        cs = [[r.choice([-1, 1]) * r.randint(1, 99999) for _ in range(6)] for _ in range((27000 if i < 3 else 54000))]
        sep, cl = [(" ", "\n"), ("\n", "\n"), (" ", " ")][i % 3]
        data = ("".join(sep.join(map(str, x)) + sep + "0" + cl for x in cs)).encode()
        p = put("r%d" % i, data.rstrip() if r.random() < .5 else data, r.random() < .3)
        k = i
        hs.append({"name": "r%d" % i, "script": ["begin r%d" % i, "limit 20", "file " + p, "end"], "pre": {"e": "tokens", "cs": cs}, "path": p, "big": True})

    def rec(h):
        c.record(exe, h)
        for x in h:
            x["events"].insert(1, x["pre"])
    rec(hs)
    small = [h for h in hs if not h.get("big")]
    c.validate("TraceDimacs", {}, small, lambda h: rec([h]), cost=lambda h: 3 + len(h["pre"].get("t", h["pre"].get("cs"))), what="texts and block boundaries")
    c.validate("TraceDimacs", {}, [h for h in hs if h.get("big")], lambda h: rec([h]), what="multi-block files")
