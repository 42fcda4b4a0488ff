------------------------------ MODULE OracleTrace ------------------------------
(* Judges a trace recorded from the real worker; see DemocracyTrace.tla for the method. What the node remembers is  *)
(* not read from the worker's storage: it is carried along from what the worker was seen to do.                     *)
EXTENDS Oracle, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, ci, st, cov
vars == <<i, ci, st, cov>>
C == Trace[ci].c
Report(k, fails) ==
  IF fails = {} THEN TRUE
  ELSE PrintT("@FAIL " \o ToJson([line |-> k, run |-> Trace[k].run, op |-> Trace[k].o.op, fails |-> SetToSeq(fails)]))
CovOf(c, s, o, r) ==
  IF o.op # "run" THEN <<o.op, r.v, {}>>
  ELSE <<o.op, r.v,
         (IF Member(o) = {} THEN {"no key"} ELSE {}) \cup (IF Held(s, o) THEN {"locked"} ELSE {})
         \cup (IF ~InWindow(c, o.blk) THEN {"outside"} ELSE IF Due(c, s, o) = {} THEN {"nothing due"} ELSE IF Due(c, s, o) = Assets THEN {"all due"} ELSE {"some due"})
         \cup (IF Due(c, s, o) # {} THEN {IF Priced(c, s, o) = {} THEN "no price" ELSE IF Priced(c, s, o) = Due(c, s, o) THEN "all priced" ELSE "some priced"} ELSE {})
         \cup (IF Due(c, s, o) # {} THEN {o.ans[k].k : k \in {x \in DOMAIN o.ans : o.ans[x].a \in Due(c, s, o) /\ o.ans[x].k # "ok"}} ELSE {})
         \cup (IF ~o.pool /\ r.txs # <<>> THEN {"refused"} ELSE {})
         \cup (IF r.intr # <<>> THEN {"second worker"} ELSE {})>>
Init == i = 0 /\ ci = 0 /\ st = <<>> /\ cov = {}
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i + 1] IN
     IF e.o.op = "init"
     THEN ci' = i + 1 /\ st' = Init0(e.c) /\ cov' = cov
     ELSE /\ ci' = ci
          /\ st' = Follow(C, st, e.o, e.r)
          /\ LET v == CovOf(C, st, e.o, e.r) IN cov' = cov \cup (IF Cardinality(v[3]) > 3 THEN {} ELSE {v})
          /\ Report(i + 1, StepFails(C, st, e.o, e.r))
Spec == Init /\ [][Next]_vars
Done == /\ TLCGet("stats").diameter - 1 = Len(Trace)
        /\ PrintT("@DONE " \o ToString(Len(Trace)))
CovOut == i = Len(Trace) => PrintT("@COV " \o ToJson(SetToSeq({<<x[1], x[2], SetToSeq(x[3])>> : x \in cov})))
=============================================================================
