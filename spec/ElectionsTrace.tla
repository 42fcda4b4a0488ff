--------------------------- MODULE ElectionsTrace ---------------------------
(***************************************************************************)
(* Judges a trace recorded from the real elections pallet; see             *)
(* DemocracyTrace.tla for the method.                                      *)
(***************************************************************************)
EXTENDS Elections, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, ci, st, g, cov
vars == <<i, ci, st, g, cov>>
C == Trace[ci].c

Owner(op) ==
  CASE op \in {"vote", "remove_voter", "clean"} -> {"E03"}
    [] op \in {"submit"} -> {"E02", "E07"}
    [] op \in {"renounce"} -> {"E02", "E05"}
    [] op \in {"remove_member"} -> {"E05"}
    [] op = "block" -> {"E04", "E09"}
    [] OTHER -> {"E08"}
WhyBlame(op, w) ==
  CASE w = "origin" -> {"E08"}
    [] w \in {"maxvotes", "novotes", "nobody", "toomany"} -> {"E07"}
    [] w \in {"low", "locked"} -> {"E03"}
    [] w = "novoter" -> {"E03"}
    [] w \in {"witness", "full"} -> {"E07"}
    [] w = "already" -> {"E01", "E07"}
    [] w = "funds" -> {"E02"}
    [] w = "role" -> {"E01", "E05"}
    [] OTHER -> {"E08"}
\* op, state before, expected state, actual state, field
FieldBlame(op, pre, x, t, f) ==
  LET el == x.er # pre.er \/ t.er # pre.er IN
  CASE f \in {"held", "free", "tot", "ti"} -> {"E02"}
    [] f = "frz" -> {"E03"}
    [] f = "vot" -> {"E03"}
    [] f = "cand" -> IF el THEN {"E04", "E01"} ELSE {"E07", "E01"} \cup (IF WhoSet(x.cand) = WhoSet(t.cand) THEN {"E02"} ELSE {})
    [] f \in {"mem", "run"} ->
         IF Who(x[f]) = Who(t[f])
         THEN (IF \E k \in DOMAIN x[f] : x[f][k].d # t[f][k].d THEN {"E02"} ELSE {})
              \cup (IF \E k \in DOMAIN x[f] : x[f][k].s # t[f][k].s THEN IF el THEN {"E04"} ELSE {"E05"} ELSE {})
         ELSE (IF el THEN {"E04"} ELSE {"E05"}) \cup {"E01"}
    [] f = "er" -> {"E09"}
    [] f \in {"lm", "lx", "odd"} -> {"E05"}
    [] f = "lp" -> {"E06"}
    [] OTHER -> {"E08"}
Untouched(pre, x, t, f) == IF x[f] = pre[f] THEN {"E08"} ELSE {}
StateBlame(op, pre, x, t) ==
  UNION {{<<p, f>> : p \in FieldBlame(op, pre, x, t, f) \cup Untouched(pre, x, t, f)} : f \in {h \in DOMAIN t : x[h] # t[h]}}

Inv(name, props, holds) == IF holds THEN {} ELSE {<<p, name>> : p \in props}
Invariants(c, gg, s) ==
  Inv("SeatsDisjoint", {"E01"}, SeatsDisjoint(s)) \cup Inv("DepositsExact", {"E02"}, DepositsExact(s))
  \cup Inv("BondsKept", {"E02"}, BondsKept(gg, s)) \cup Inv("StakeKept", {"E03"}, StakeKept(gg, s))
  \cup Inv("ListenerExact", {"E05"}, ListenerExact(s)) \cup Inv("PrimeIsMember", {"E06"}, PrimeIsMember(gg, s))
  \cup Inv("Bounded", {"E07"}, Bounded(c, s))

Elects(o) == o.op = "block" \/ (o.op = "remove_member" /\ o.rerun)
\* the events reported, in any order, each once
EventBlame(c, pre, o, ev, t) ==
  LET want == Events(c, pre, o, t) IN
  (IF Len(ev) = Cardinality(want) /\ {ev[k] : k \in DOMAIN ev} = want THEN {} ELSE {<<"E10", "events">>})
  \cup (IF Told(pre, {ev[k] : k \in DOMAIN ev}, t) THEN {} ELSE {<<"E10", "told">>})
Judge(c, gg, o, r, pre, t) ==
  IF IsEnv(o)
  THEN LET fs == IF o.op = "param" THEN {o.k} ELSE {"tot", "free", "ti"} IN
       StateBlame("env", pre, [f \in DOMAIN pre |-> IF f \in fs THEN t[f] ELSE pre[f]], t)
  ELSE LET e == Apply(c, pre, o)
           asked == IF o.op = "block" THEN AskedRightly(pre, o.el)
                    ELSE IF o.op = "remove_member" /\ o.to \in Members(pre) THEN AskedRightly(Leave(pre, o.to, o.slash), o.el) ELSE TRUE
       IN
       (IF asked THEN {} ELSE {<<"?", "the driver asked the wrong question">>}) \cup
       (IF r.v = "ok" THEN StepFails(c, gg, pre, o, t) \cup EventBlame(c, pre, o, r.ev, t) ELSE {}) \cup
       (IF r.v = "panic" THEN {<<p, "panic">> : p \in Owner(o.op) \cup {"E08"}}
        ELSE IF r.v = "err"
        THEN (IF e.v = "ok" THEN {<<p, "refused">> : p \in Owner(o.op)} ELSE {})
             \cup (IF t # pre THEN {<<"E08", "changed by a failed call">>} ELSE {})
        ELSE IF e.v = "err" THEN UNION {{<<p, w>> : p \in WhyBlame(o.op, w)} : w \in e.why}
        ELSE StateBlame(o.op, pre, e.s, t))

Report(k, fails) ==
  IF fails = {} THEN TRUE
  ELSE PrintT("@FAIL " \o ToJson([line |-> k, run |-> Trace[k].run, op |-> Trace[k].o.op, fails |-> SetToSeq(fails)]))
CovOf(c, o, r, pre) == IF IsEnv(o) THEN <<o.op, r.v, {}>>
                       ELSE <<o.op, r.v, Apply(c, pre, o).why \cup (IF Elects(o) /\ Apply(c, pre, o).s.er # pre.er THEN {"elected"} ELSE {})>>

Init == i = 0 /\ ci = 0 /\ st = <<>> /\ g = <<>> /\ cov = {}
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i + 1]   t == e.s IN
     /\ st' = t
     /\ IF e.o.op = "init"
        THEN /\ ci' = i + 1
             /\ g' = Ghost0(t)
             /\ cov' = cov
             /\ Report(i + 1, Invariants(e.c, Ghost0(t), t) \cup (IF t = Init0(e.c) THEN {} ELSE {<<"E08", "init">>}))
        ELSE LET gn == IF e.r.v = "ok" /\ ~IsEnv(e.o) THEN GhostNext(C, g, st, e.o, t) ELSE g IN
             /\ ci' = ci
             /\ g' = gn
             /\ cov' = cov \cup {CovOf(C, e.o, e.r, st)}
             /\ Report(i + 1, Judge(C, g, e.o, e.r, st, t) \cup Invariants(C, gn, t))
Spec == Init /\ [][Next]_vars
Done == /\ TLCGet("stats").diameter - 1 = Len(Trace)
        /\ PrintT("@DONE " \o ToString(Len(Trace)))
CovOut == i = Len(Trace) => PrintT("@COV " \o ToJson(SetToSeq({<<x[1], x[2], SetToSeq(x[3])>> : x \in cov})))
=============================================================================
