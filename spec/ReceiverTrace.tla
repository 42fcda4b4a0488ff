---------------------------- MODULE ReceiverTrace ----------------------------
(* Judges a trace recorded from the real pallet; see DemocracyTrace.tla for the method. *)
EXTENDS Receiver, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, ci, st, g, cov
vars == <<i, ci, st, g, cov>>
C == Trace[ci].c
Read(e) == [e EXCEPT !.done = ToSet(@)]

WhyBlame(w) == CASE w = "origin" -> {"R01"} [] w \in {"funds"} -> {"R03", "R04"} [] OTHER -> {"R04"}
FieldBlame(f) == CASE f = "done" -> {"R02"} [] f = "free" -> {"R02", "R03"} [] OTHER -> {"R03"}
StateBlame(x, t) == UNION {{<<p, f>> : p \in FieldBlame(f)} : f \in {h \in DOMAIN t : x[h] # t[h]}}
Inv(name, p, holds) == IF holds THEN {} ELSE {<<p, name>>}
Invariants(c, gg, s) == Inv("LockedLongEnough", "R03", LockedLongEnough(c, gg, s)) \cup Inv("LockCovered", "R03", LockCovered(s)) \cup Inv("Bounded", "R04", Bounded(s))

Judge(c, gg, o, r, pre, t) ==
  IF r.v = "panic" THEN {<<"R04", "panic">>}
  ELSE IF IsEnv(o)
  THEN StateBlame([f \in DOMAIN pre |-> IF f \in EnvFields(o) THEN t[f] ELSE pre[f]], t)
  ELSE LET e == Apply(c, pre, o) IN
       StepFails(c, gg, pre, o, r, t)
       \cup (IF r.v = "err" /\ e.v = "ok" THEN {<<"R04", "refused">>}
             ELSE IF r.v = "ok" /\ e.v = "err" THEN UNION {{<<p, w>> : p \in WhyBlame(w)} : w \in e.why}
             ELSE StateBlame(e.s, t))
Report(k, fails) ==
  IF fails = {} THEN TRUE
  ELSE PrintT("@FAIL " \o ToJson([line |-> k, run |-> Trace[k].run, op |-> Trace[k].o.op, fails |-> SetToSeq(fails)]))
CovOf(c, o, r, pre) ==
  IF IsEnv(o) \/ o.op = "block" THEN <<o.op, r.v, {}>>
  ELSE LET e == Apply(c, pre, o) IN
       <<o.op, r.v, e.why \cup (IF o.op = "execute"
          THEN {IF o.org = "para" THEN ToString(o.para) ELSE o.org} \cup
               (IF \E k \in DOMAIN o.ms : Key(o.ms[k]) \in pre.done THEN {"executed before"} ELSE {}) \cup
               (IF \E k, j \in DOMAIN o.ms : k < j /\ Key(o.ms[k]) = Key(o.ms[j]) THEN {"twice in the batch"} ELSE {}) \cup
               (IF \E k \in DOMAIN o.ms : o.ms[k].amt = 0 THEN {"nothing"} ELSE {}) \cup
               (IF \E k, j \in DOMAIN o.ms : k < j /\ o.ms[k].u = o.ms[j].u /\ Key(o.ms[k]) # Key(o.ms[j]) THEN {"two of one user"} ELSE {})
          ELSE {}) >>

Init == i = 0 /\ ci = 0 /\ st = <<>> /\ g = <<>> /\ cov = {}
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i + 1]   t == Read(e.s) IN
     /\ st' = t
     /\ IF e.o.op = "init"
        THEN /\ ci' = i + 1 /\ g' = Ghost0(t) /\ cov' = cov
             /\ Report(i + 1, Invariants(e.c, Ghost0(t), t) \cup (IF t = Init0(e.c) THEN {} ELSE {<<"R03", "init">>}))
        ELSE LET gn == GhostNext(g, st, e.o, e.r.v = "ok") IN
             /\ ci' = ci /\ g' = gn /\ cov' = cov \cup {CovOf(C, e.o, e.r, st)}
             /\ Report(i + 1, Judge(C, g, e.o, e.r, st, t) \cup Invariants(C, gn, t))
Spec == Init /\ [][Next]_vars
Done == /\ TLCGet("stats").diameter - 1 = Len(Trace)
        /\ PrintT("@DONE " \o ToString(Len(Trace)))
CovOut == i = Len(Trace) => PrintT("@COV " \o ToJson(SetToSeq({<<x[1], x[2], SetToSeq(x[3])>> : x \in cov})))
=============================================================================
