"""Runs the command line program and turns each run into events of TraceCli."""
import gzip, os, shutil, signal, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor

DEFAULT = dict(model=False, minimize=False, pruned=False, testmodel=False, testproof=False, testlimit=0, gatestats=False, limited=False, badoption=False, lines=False)
RESULT = {"s SATISFIABLE": 10, "s UNSATISFIABLE": 20, "s INDETERMINATE": 0}
VERIFIED = {"c Result verified by model checker": "model", "c Result verified by proof checker": "proof",
            "c Result could not be verified by model checker": "nomodel", "c Result could not be verified by proof checker": "noproof"}


def ints(s):
    try:
        return [int(x) for x in s.split()]
    except ValueError:
        return None


def parse_output(out):
    r = dict(s=[], v=[], mm=[], ver=[], odd=0)
    for ln in out.decode(errors="replace").split("\n"):
        ln = ln.rstrip("\r")
        if ln.startswith("s ") or ln == "s":
            r["s"].append(RESULT.get(ln, -1))
        elif ln.startswith("v ") or ln == "v":
            x = ints(ln[1:])
            # the line ends with 0; anything else is recorded in a way that no specification accepts
            r["v"].append(x[:-1] if x and x[-1] == 0 else [0])
        elif ln.startswith("c Minimized-Model: "):
            x = ints(ln[len("c Minimized-Model: "):])
            r["mm"].append(x if x is not None else [0])
        elif ln in VERIFIED:
            r["ver"].append(VERIFIED[ln])
        elif ln and not ln.startswith("c ") and ln not in ("c", "*** INTERRUPTED ***"):
            r["odd"] += 1
    return r


def run_one(exe, h, work, limit=60):
    """h: args (with FILE for the input), data, how (file, gz, stdin), sigint (seconds or None)"""
    d = tempfile.mkdtemp(prefix="cli-", dir=work)
    try:
        stdin = subprocess.DEVNULL
        name = os.path.join(d, "in.cnf" + (".gz" if h["how"] == "gz" else ""))
        with (gzip.open(name, "wb", 1) if h["how"] == "gz" else open(name, "wb")) as f:
            f.write(h["data"])
        args = [a.replace("DIR", d) for a in h["args"]]
        if h["how"] == "stdin":
            stdin = open(name, "rb")
        else:
            k = h.get("at", len(args))
            args = args[:k] + [name] + args[k:]
        with open(os.path.join(d, "out"), "wb") as o:
            p = subprocess.Popen([exe] + args, stdin=stdin, stdout=o, stderr=subprocess.DEVNULL, cwd=d)
            if h.get("sigint"):
                time.sleep(h["sigint"])
                if p.poll() is None:
                    p.send_signal(signal.SIGINT)
            try:
                rc = p.wait(timeout=limit)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = -999
        out = open(os.path.join(d, "out"), "rb").read()
        if h.get("proof"):
            pf = os.path.join(d, h["proof"])
            h["prooftext"] = open(pf, errors="replace").read() if os.path.exists(pf) else None
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ev = [{"e": "begin", "name": h["name"]}, h["pre"]]
    r = parse_output(out)
    if h.get("sigint") and (rc == -2 or b"*** INTERRUPTED ***" in out) and not r["s"]:
        ev.append({"e": "killed", "sig": 2, "s": r["s"]})
    else:
        ev.append({"e": "run", "args": h["args"], "o": dict(DEFAULT, **h["o"]), "r": dict(exit=rc, **r)})
    h["events"] = ev
    return h


def run_all(exe, hs, work, n=8, limit=60):
    """runs that are left after some have used up their time are dropped from hs"""
    hung = []

    def go(h):
        if len(hung) >= 6:
            h["events"] = None
            return
        run_one(exe, h, work, limit)
        if h["events"][-1].get("r", {}).get("exit") == -999:
            hung.append(h)
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(go, hs))
    hs[:] = [h for h in hs if h["events"] is not None]


def render(cs):
    return ("p cnf %d %d\n" % (max([abs(x) for c in cs for x in c], default=0), len(cs)) + "".join(" ".join(map(str, c + [0])) + "\n" for c in cs)).encode()
