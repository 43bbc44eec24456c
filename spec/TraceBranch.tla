----------------------------- MODULE TraceBranch ----------------------------
(* Accepts recorded decisions and conflicts of the real branching heuristics.  *)
EXTENDS Branch, Json, IOUtils
VARIABLES l, cfg, phase, conj, used, calls,
          pace,       \* conflicts so far and the decay, in hundredths
          rate        \* learning rates: conflicts so far, and since when and how often a variable took part in them
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<l, cfg, phase, conj, used, calls, rate, pace>>
NoRate == [k |-> 0, on |-> <<>>, part |-> <<>>]
Ev == TraceLog[l]
NoConj == [on |-> FALSE, eq |-> {}, bb |-> {}]
TraceInit == l = 1 /\ cfg = <<>> /\ phase = <<>> /\ conj = NoConj /\ used = <<>> /\ calls = 0 /\ rate = NoRate /\ pace = [n |-> 0, dec |-> 0]
Begin == Ev.e = "begin" /\ cfg' = <<>> /\ phase' = <<>> /\ conj' = NoConj /\ used' = <<>> /\ calls' = 0 /\ rate' = NoRate /\ pace' = [n |-> 0, dec |-> 0]
Start == Ev.e = "start" /\ cfg' = Ev /\ pace' = [n |-> 0, dec |-> Ev.decay] /\ UNCHANGED <<phase, conj, used, calls, rate>>
\* the initial polarity is negative, unless variables are sorted by occurrences
DoInit == /\ Ev.e = "init"
          /\ phase' = [v \in 1..Ev.n |-> IF cfg.sort THEN 0 ELSE IF v <= Len(phase) THEN phase[v] ELSE -1]
          /\ conj' = [on |-> Ev.on, eq |-> {Elems(c) : c \in Elems(Ev.eq)}, bb |-> Elems(Ev.bb)]
          /\ used' = <<>>                       \* budgets are filled
          /\ UNCHANGED <<cfg, calls, rate, pace>>
DoPhase == /\ Ev.e = "phase"
           /\ phase' = [v \in 1..Len(phase) |-> IF v \in Elems(Ev.ls) THEN 1 ELSE IF -v \in Elems(Ev.ls) THEN -1 ELSE phase[v]]
           /\ UNCHANGED <<cfg, conj, used, calls, rate, pace>>
\* the decay factor rises by one hundredth every 5000 conflicts up to its maximum
RECURSIVE DecayAfter(_, _)
DecayAfter(d, steps) == IF steps = 0 \/ d >= cfg.maxdecay THEN d ELSE DecayAfter(d + 1, steps - 1)
\* a long search is looked at from some conflict on
DoResume == Ev.e = "resume" /\ phase' = Ev.ph /\ pace' = [n |-> Ev.n, dec |-> DecayAfter(cfg.decay, Ev.n \div 5000)]
            /\ UNCHANGED <<cfg, conj, used, calls, rate>>
\* all by the same amount, which grows from conflict to conflict
Amounts == /\ cfg.equal => \A i \in 1..Len(Ev.rel) : Ev.rel[i] \in 999990..1000000
           /\ (Ev.growth # 0 /\ cfg.equal) => Near(Ev.growth * pace.dec, 1000000, 2 * pace.dec)
\* learning rates: the share of the conflicts since its assignment that a variable took part in, averaged with step size a
At(f, v) == IF v \in DOMAIN f THEN f[v] ELSE 0
RatesOk(all, seg) == LET a == MaxOf(cfg.step - (rate.k + 1), MinOf(cfg.step, cfg.minstep)) IN
    \A v \in 1..Len(Ev.r0) :
        IF v \in seg THEN Near(Ev.r1[v] * 10, ((100000 - a) * Ev.r0[v]) \div 10000 + (a * (At(rate.part, v) + (IF v \in Elems(Ev.inv) THEN 1 ELSE 0))) \div (At(rate.on, v) + 1), 30)
        ELSE Ev.r1[v] = Ev.r0[v]
Rates == LET all == Elems(Ev.all)  seg == {BAbs(x) : x \in Elems(Ev.seg)}  D == all \cup DOMAIN rate.on \cup Elems(Ev.inv) IN
         IF Ev.r0 = <<>> THEN UNCHANGED rate
         ELSE /\ RatesOk(all, seg) = TRUE
              /\ rate' = [k |-> rate.k + 1,
                          on |-> [v \in D |-> IF v \in seg THEN 0 ELSE At(rate.on, v) + (IF v \in all THEN 1 ELSE 0)],
                          part |-> [v \in D |-> IF v \in seg THEN 0 ELSE At(rate.part, v) + (IF v \in Elems(Ev.inv) THEN 1 ELSE 0)]]
\* the phase of every variable that is going to be unassigned is saved; activities of exactly the involved variables increase
DoConflict == /\ Ev.e = "conflict"
              /\ phase' = [v \in 1..Len(phase) |-> IF v \in Elems(Ev.seg) THEN 1 ELSE IF -v \in Elems(Ev.seg) THEN -1 ELSE phase[v]]
              /\ (Ev.seen => Elems(Ev.up) = Elems(Ev.inv) \cup (IF cfg.extra THEN Elems(Ev.ext) ELSE {})) = TRUE
              /\ Amounts = TRUE /\ Rates
              /\ pace' = [n |-> pace.n + 1, dec |-> IF (pace.n + 1) % 5000 = 0 THEN DecayAfter(pace.dec, 1) ELSE pace.dec]
              /\ UNCHANGED <<cfg, conj, used, calls>>
Un == Elems(Ev.un)
Top == Elems(Ev.top)
Bound == IF cfg.kind = "bud" THEN cfg.budget ELSE 0
Advice(x) == Usable(conj.eq, conj.bb, cfg.size, used, Bound, Un, x)
Src == Sources(Ev.lv, Advice)
\* with decreasing probability: certain for the first half-life, gone after 64 of them (calls counts the former exactly and the latter from below)
Must == cfg.kind # "van" \/ calls < cfg.half
Never == cfg.kind = "van" /\ calls \div 64 >= cfg.half
AdvisedR == Src # {} /\ LET x == Ev.lv[Least(Src)] IN Ev.r \in Advice(x)
Signs == InBackbone(conj.bb, BAbs(Ev.r)) /\ Left(used, Bound, <<BAbs(Ev.r), BAbs(Ev.r)>>)
\* the second draw of a decision that was not advised
MustSign == cfg.kind # "van" \/ calls + 1 < cfg.half
PlainR == Plain(Ev.r, Un, Top, phase)
SignedR == Signed(Ev.r, Un, Top, phase, conj.bb, used, Bound)
DoPick ==
    /\ Ev.e = "pick"
    /\ IF ~conj.on THEN PlainR /\ UNCHANGED <<used, calls>>
       ELSE IF Src # {} /\ Must
       THEN /\ AdvisedR /\ calls' = calls + 1
            /\ used' = Bump(used, <<BAbs(Ev.lv[Least(Src)]), BAbs(Ev.r)>>)
       ELSE /\ (IF Never THEN PlainR
                ELSE (Src # {} /\ AdvisedR) \/ SignedR \/ (~MustSign /\ PlainR)) = TRUE
            /\ calls' = calls + (IF calls < cfg.half THEN 2 ELSE 1)
            /\ used' = IF Ev.r # 0 /\ Signs THEN Bump(used, <<BAbs(Ev.r), BAbs(Ev.r)>>) ELSE used
    /\ UNCHANGED <<cfg, phase, conj, rate, pace>>
Answer == Ev.e = "answer" /\ UNCHANGED <<cfg, phase, conj, used, calls, rate, pace>>
TraceNext == l <= Len(TraceLog) /\ l' = l + 1 /\ (Begin \/ Start \/ DoInit \/ DoPhase \/ DoResume \/ DoConflict \/ DoPick \/ Answer)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == /\ PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(TraceLog)>>)
            /\ TLCGet("stats").diameter - 1 = Len(TraceLog)
=============================================================================
