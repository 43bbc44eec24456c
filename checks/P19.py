"""P19: command line options."""
import json, subprocess
from concurrent.futures import ThreadPoolExecutor

codes = lambda s: list(s.encode("latin1"))


def main(c):
    r = c.rnd
    c.model("MCOptions", constants={"MaxLen": 3, "MaxArgs": 2}, must_take=["Step"])
    if c.tier == "thorough":
        c.model("MCOptions", constants={"MaxLen": 4, "MaxArgs": 2})
    exe = c.build(["drv_opt"])["drv_opt"]

    def run(strict, args):
        try:
            p = subprocess.run([exe, "1" if strict else "0"] + args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, timeout=20, cwd=c.work)
        except subprocess.TimeoutExpired:
            return -999, None
        for ln in p.stdout.decode("latin1").split("\n"):
            if ln.startswith("JSON ") and p.returncode == 99:
                return 99, json.loads(ln[5:])
        return p.returncode, None
    rc, base = run(True, [])
    if not base:
        c.violation_text("no options", {"exit": rc})
        return
    opts = base["opts"]
    name = lambda o: bytes(o["name"]).decode("latin1")

    def value(o):
        k = r.random()
        if o["kind"] == "int":
            lo, hi = o["lo"], o["hi"]
            near = [x for x in (lo, hi, lo - 1, hi + 1, lo + 1, hi - 1, (lo + hi) // 2, 0, 1, -1, 10, 65536) if abs(x) < 10 ** 9]
            return r.choice([str(r.choice(near)), str(r.choice(near)), str(r.choice(near)), "+" + str(abs(r.choice(near))), "0" + str(abs(r.choice(near))), "",
                             "x", "1x", "-", "1.5", "99999999999", "-99999999999", "18446744073709551617", "9223372036854775808" * 2, "1 "])
        if o["kind"] == "double":
            f = lambda x: ("%.4f" % (x / 1e4)).rstrip("0")
            near = [x for x in (o["lo"], o["hi"], o["lo"] - 1, o["hi"] + 1, o["lo"] + 1, o["hi"] - 1, (o["lo"] + o["hi"]) // 2, 5000, 1) if abs(x) < 10 ** 8]
            return r.choice([f(r.choice(near)), f(r.choice(near)), f(r.choice(near)), "1", "0", "", ".", ".5", "5.", "+0.75", "-0.25", "1..2", "0.5.1", "a", "0.9a", "-"])
        return "".join(r.choice("abcxyz=/.-_ 019") for _ in range(r.choice([0, 1, 3, 10, 10, 254, 255, 256, 257, 600]))).replace("--h", "--g")

    def arg():
        o = r.choice(opts)
        n = name(o)
        k = r.random()
        if k < .6:
            return r.choice(["-", "-", "-no-"]) + n if o["kind"] == "bool" else "-%s=%s" % (n, value(o))
        if k < .85:
            return r.choice(["in.cnf", "a/b.cnf.gz", "x", "", "1", "=", "no-pre", "verb=1"])
        return r.choice(["-" + n, "-no-" + n, "--" + n, "-%s=" % n, "-%s=1" % n, "-%s" % n[:-1], "-%s" % (n + "x"), n + "=1", "-no-no-" + n, " -" + n, "-", "--", "-no-", "-=1",
                         "-" + n.upper(), "--help" if r.random() < .2 else "-" + n, "x-%s=1" % n])
    hs = []
    for o in opts:               # every option by itself
        for _ in range(c.n(6, 30)):
            n = name(o)
            hs.append({"args": [r.choice(["-", "-no-"]) + n if o["kind"] == "bool" else "-%s=%s" % (n, value(o))], "strict": True})
        for a in ("-%sx", "-no-%sx", "-%s=", "-no-%s=1", "x-%s", "--%s"):       # almost the option
            if r.random() < .5:
                hs.append({"args": [a % n], "strict": r.random() < .5})
    for _ in range(c.n(1500)):
        hs.append({"args": [arg() for _ in range(r.choice([0, 1, 2, 2, 3, 3, 4, 6]))], "strict": r.random() < .8})
    r.shuffle(hs)
    hs = [{"name": "o%d" % i, "lines": hs[i:i + 8]} for i in range(0, len(hs), 8)]

    def rec(h):
        h["events"] = [{"e": "begin", "name": h["name"]}, {"e": "table", "opts": opts, "vals": base["vals"]}]
        for x in h["lines"]:
            rc, d = run(x["strict"], x["args"])
            e = {"e": "parse", "args": [codes(a) for a in x["args"]], "strict": x["strict"], "exit": rc, "text": " ".join(x["args"])[:80]}
            if d:
                e.update(vals=d["vals"], rest=d["rest"])
            h["events"].append(e)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(rec, hs))
    c.extra["options"] = len(opts)
    c.extra["rejected_command_lines"] = sum(1 for h in hs for e in h["events"] if e.get("exit") == 1)
    c.log(len(opts), "options;", c.extra["rejected_command_lines"], "of", sum(len(h["lines"]) for h in hs), "command lines rejected")
    c.validate("TraceOptions", {}, hs, rec, what="command lines")
