"""Shared machinery: TLC model runs, trace recording, trace validation, evidence, verdicts.

Outcomes of a check: exit 0 (held), exit 1 + VIOLATION line (a recorded behaviour of the real code is not a
behaviour of the specification, and re-running it repeats the rejection), exit 2 (the check itself failed)."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor
import build as B

VERIF = B.VERIF
REPO = B.REPO
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = int(os.environ.get("VERIF_JOBS", "8"))


class CheckError(Exception):
    pass


def known_findings():
    """list of (property, matcher dict) from KNOWN_FINDINGS.jsonl (kind 'known' only)"""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln and not ln.startswith("#"):
                out.append(json.loads(ln))
    return out


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rnd = random.Random(self.seed * 1000003 + int(pid[1:]))
        self.level = level
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.events = 0
        self.samples = []
        self.extra = {}
        self.models = []
        self.assumptions = []
        self.violations = []      # (replay, text)
        os.makedirs(B.BUILD, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix="work-%s-" % pid, dir=B.BUILD)

    # ---------------------------------------------------------------- scale
    def n(self, quick, thorough=None):
        f = float(os.environ.get("VERIF_SCALE", "1"))
        if self.tier == "thorough":
            return int((thorough if thorough is not None else quick * 12) * f)
        return int(quick * f)

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ---------------------------------------------------------------- build
    def build(self, drivers=(), programs=(), variant="opt"):
        r = B.build(drivers, programs, variant)
        self.log("built", variant, ", ".join(r))
        return r

    # ---------------------------------------------------------------- TLC
    def _tlc(self, spec, cfg, workers=1, env=None, heap="3g", timeout=3000, extra=()):
        meta = tempfile.mkdtemp(prefix="meta-", dir=self.work)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        if env:
            e.update(env)
        gc = "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC"
        cmd = ["java", gc, "-Xmx" + heap, "-Xss256m", "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
               "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [spec + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % spec)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, r.stdout

    def model(self, spec, cfg=None, workers=None, constants=None, timeout=3000, must_take=(), simulate=None, heap="8g"):
        """exhaustive (or simulated) run of a specification; its failure is an error of the check"""
        cfg = os.path.join(SPEC, cfg or spec + ".cfg")
        if constants:
            txt = open(cfg).read()
            for k, v in constants.items():
                txt, k_n = re.subn(r"\b%s\s*=\s*(\{[^}]*\}|\S+)" % k, lambda m: "%s = %s" % (k, v), txt)
                if k_n != 1:
                    raise CheckError("constant %s not in %s" % (k, cfg))
            cfg = os.path.join(self.work, "%s-%d.cfg" % (spec, len(self.models)))
            open(cfg, "w").write(txt)
        extra = ["-coverage", "1"] if must_take else []
        if simulate:
            extra += ["-simulate", simulate[0], "-depth", str(simulate[1])]
        rc, out = self._tlc(spec, cfg, workers or NPROC, timeout=timeout, extra=extra, heap=heap)
        if rc != 0:
            raise CheckError("model %s failed (rc %d):\n%s" % (spec, rc, out[-3000:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", ", ").replace(",  ", ", ")) or \
            re.search(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct", out)
        if not m and not simulate:
            raise CheckError("model %s: no statistics:\n%s" % (spec, out[-2000:]))
        g = d = 0
        if m:
            g, d = (int(x.replace(",", "")) for x in m.groups())
        else:
            m = re.findall(r"(\d[\d,]*) states checked", out) or re.findall(r"(\d[\d,]*) states generated", out)
            g = d = int(m[-1].replace(",", "")) if m else 0
        for act in must_take:
            mm = re.findall(r"<%s [^>]*>: (\d+):(\d+)" % act, out)
            if not mm or max(int(b) for _, b in mm) == 0:
                raise CheckError("model %s: action %s is never taken" % (spec, act))
        self.states += d
        self.transitions += g
        self.models.append({"spec": spec, "distinct_states": d, "generated": g, "constants": constants or "cfg"})
        self.log("model %s: %d states, %d distinct" % (spec, g, d))
        return out

    def tlc_traces(self, spec, consts, events, tag, cfgtext=None):
        """validates one event list; returns None (accepted) or the 0-based index of the rejected event"""
        tf = os.path.join(self.work, "t-%s.ndjson" % tag)
        with open(tf, "w") as f:
            for e in events:
                f.write(json.dumps(e, separators=(",", ":")) + "\n")
        cfg = os.path.join(self.work, "t-%s.cfg" % tag)
        with open(cfg, "w") as f:
            f.write("SPECIFICATION TraceSpec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n")
            if consts:
                f.write("CONSTANTS\n" + "\n".join("  %s = %s" % kv for kv in consts.items()) + "\n")
            f.write(cfgtext or "")
        rc, out = self._tlc(spec, cfg, 1, env={"TRACE": tf}, heap="3g")
        os.unlink(tf)
        m = re.search(r'<<"REACHED", (\d+), (\d+)>>', out)
        if not m:
            raise CheckError("trace validation %s did not finish (rc %d):\n%s" % (spec, rc, out[-3000:]))
        reached, total = int(m.group(1)), int(m.group(2))
        if total != len(events):
            raise CheckError("trace length mismatch")
        g = re.search(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct", out)
        if reached == total:
            if rc != 0:
                raise CheckError("trace validation %s: rc %d although accepted\n%s" % (spec, rc, out[-2000:]))
            return None
        return reached

    # ---------------------------------------------------------------- recording
    def record(self, exe, histories, env=None, timeout=1200, nproc=NPROC, args=()):
        """runs the driver on scripts (list of line lists, each 'begin NAME'...'end'); returns event lists"""
        n = max(1, min(nproc, len(histories)))
        parts = [histories[i::n] for i in range(n)]
        e = dict(os.environ)
        e.update(env or {})

        def go(k):
            sf = os.path.join(self.work, "s-%d-%d.txt" % (id(histories) % 99991, k))
            of = sf + ".out"
            with open(sf, "w") as f:
                for h in parts[k]:
                    f.write("\n".join(h["script"]) + "\n")
            try:
                r = subprocess.run([exe] + list(args) + [sf, of], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                                   timeout=timeout, cwd=self.work)
            except subprocess.TimeoutExpired:
                raise CheckError("driver %s timed out" % exe)
            if r.returncode != 0:
                raise CheckError("driver %s failed with %d: %s" % (exe, r.returncode, r.stderr[-2000:]))
            cur = None
            res = []
            for ln in open(of, errors="replace"):
                ln = ln.strip()
                if not ln:
                    continue
                try:
                    ev = json.loads(ln)
                except ValueError:
                    # a crashing child can leave a torn line behind; the crash event follows
                    continue
                if ev["e"] == "begin":
                    cur = [ev]
                    res.append(cur)
                else:
                    cur.append(ev)
            os.unlink(sf)
            os.unlink(of)
            hangs = [x for x in res if x[-1].get("e") == "crash" and x[-1].get("sig") in (9, 24)]
            if len(res) < len(parts[k]) and len(hangs) >= 2 and hangs[-1] is res[-1]:
                # the driver gave up after two histories which used up their time (and are going to be rejected)
                for h in parts[k][len(res):]:
                    h["events"] = None
            elif len(res) != len(parts[k]):
                raise CheckError("driver produced %d of %d histories" % (len(res), len(parts[k])))
            for h, evs in zip(parts[k], res):
                h["events"] = evs
        with ThreadPoolExecutor(n) as ex:
            list(ex.map(go, range(n)))
        if any(h["events"] is None for h in histories):
            self.log("%d histories were not recorded after others had used up their time" % sum(h["events"] is None for h in histories))
            histories[:] = [h for h in histories if h["events"] is not None]
        return histories

    # ---------------------------------------------------------------- validation
    def validate(self, spec, consts, histories, rerun, cost=None, cfgtext=None, what=""):
        """checks every recorded history; rerun(history) re-records one history (same script) for confirmation"""
        if not histories:
            return
        cost = cost or (lambda h: len(h["events"]))
        n = max(1, min(NPROC, len(histories)))
        bins = [[0, []] for _ in range(n)]
        for h in sorted(histories, key=cost, reverse=True):
            b = min(bins, key=lambda b: b[0])
            b[0] += cost(h)
            b[1].append(h)

        def go(k):
            hs = list(bins[k][1])
            bad = []
            rnd = 0
            while hs:
                evs = []
                owner = []
                for h in hs:
                    evs += h["events"]
                    owner += [h] * len(h["events"])
                r = self.tlc_traces(spec, consts, evs, "%s-%d-%d" % (spec, k, rnd), cfgtext)
                rnd += 1
                if r is None:
                    break
                h = owner[r]
                start = r - owner[:r].count(h) if False else None
                idx = r - owner.index(h)
                bad.append((h, idx))
                hs = hs[hs.index(h) + 1:]
                if len(bad) >= 2:
                    break
            return bad, rnd
        with ThreadPoolExecutor(n) as ex:
            res = list(ex.map(go, range(n)))
        rejected = [x for bad, _ in res for x in bad]
        self.validated += len(histories) - len(rejected)
        self.events += sum(len(h["events"]) for h in histories)
        self.log("validated %d histories (%d events) against %s%s, %d rejected" % (
            len(histories), sum(len(h["events"]) for h in histories), spec, " [%s]" % what if what else "", len(rejected)))
        for h in histories[:1]:
            if len(self.samples) < 6:
                s = h.get("sample") or [json.dumps(e, separators=(",", ":"))[:160] for e in h["events"][:8]]
                self.samples.append({"spec": spec, "what": what, "events": s})
        def hangs(h):
            e = h["events"][-1]
            return e.get("e") == "crash" and e.get("sig") in (9, 24) or -999 in (e.get("exit"), isinstance(e.get("r"), dict) and e["r"].get("exit"))
        rejected = [x for x in rejected if not hangs(x[0])] + [x for x in rejected if hangs(x[0])]
        for n, (h, idx) in enumerate(rejected[:4]):
            if n and hangs(h):
                continue
            rerun(h)
            r = self.tlc_traces(spec, consts, h["events"], "confirm-%s" % spec, cfgtext)
            if r is None:
                self.log("rejection of %s not repeated; not reported" % h.get("name"))
                self.extra["unrepeated_rejections"] = self.extra.get("unrepeated_rejections", 0) + 1
                continue
            self.violation(h, spec, consts, r, what)

    def violation(self, h, spec, consts, idx, what=""):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s-%d.json" % (self.pid, re.sub(r"\W+", "_", str(h.get("name", "h"))), len(self.violations)))
        with open(p, "w") as f:
            json.dump({"property": self.pid, "specification": spec, "constants": consts, "what": what,
                       "rejected_event_index": idx, "rejected_event": h["events"][idx] if idx < len(h["events"]) else None,
                       "script": h.get("script"), "meta": {k: v for k, v in h.items() if k not in ("script", "events")},
                       "events": h["events"]}, f, indent=1, default=str)
        self.violations.append((p, json.dumps(h["events"][idx])[:400] if idx < len(h["events"]) else ""))

    def violation_text(self, name, data):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s-%d.json" % (self.pid, re.sub(r"\W+", "_", name), len(self.violations)))
        json.dump(data, open(p, "w"), indent=1, default=str)
        self.violations.append((p, name))

    # ---------------------------------------------------------------- end
    def finish(self):
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.validated,
               "trace_events": self.events, "models": self.models, "samples": self.samples}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        for k in known_findings():
            if k.get("status") == "known" and k.get("property") == self.pid:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        for p, txt in self.violations:
            self.log("rejected:", txt)
            print("VIOLATION property=%s replay=%s" % (self.pid, p), flush=True)
        self.log("done: %d traces validated, %d violations" % (self.validated, len(self.violations)))
        return 1 if self.violations else 0


def run(pid, fn, level="model_checking"):
    c = Check(pid, level)
    try:
        fn(c)
    except (CheckError, B.BuildError) as e:
        print("CHECK-ERROR %s: %s" % (pid, e), flush=True)
        if not c.violations:
            shutil.rmtree(c.work, ignore_errors=True)
            return 2
    except Exception:
        traceback.print_exc()
        if not c.violations:
            shutil.rmtree(c.work, ignore_errors=True)
            return 2
    return c.finish()
