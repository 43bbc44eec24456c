"""P13: gate recognition."""
import gates


def main(c):
    c.model("MCGates", must_take=["UnitRoots", "MoreRoots", "Recognize"])
    c.model("MCGates", constants={"NV": 3, "MaxClauses": c.n(3, 5), "MaxLen": 3})
    exe = c.build(["drv_gates"])["drv_gates"]
    rerun = lambda h: c.record(exe, [h])
    hs = gates.histories(c, c.rnd, c.n(900), c.n(900), c.n(1200))
    c.record(exe, hs)
    ga = [g for h in hs for e in h["events"] if e["e"] == "analyze" for g in e["gates"]]
    c.extra["gates"] = {"mono": sum(g["mono"] for g in ga), "nonmono": sum(not g["mono"] for g in ga)}
    c.log(c.extra["gates"])
    c.validate("TraceGates", {"CheckStructure": "TRUE", "CheckPrune": "FALSE", "EnumVars": "0"}, hs, rerun, cost=lambda h: h["n"] ** 2, what="recognized structures")
