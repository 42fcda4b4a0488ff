------------------------------- MODULE MCOracle -------------------------------
(* Exhaustive exploration of Oracle.tla and source of scenarios; see MCDemocracy.tla for the method. *)
EXTENDS Oracle, Json
CONSTANTS Profile, Depth, MaxBlock, Emit

Cfg == IF Profile = "windows" THEN [interval |-> 4, window |-> 2] ELSE [interval |-> 3, window |-> 1]
G(n, p, v) == [n |-> n, h |-> BNat(p + 3), l |-> BNat(p), c |-> BNat(p + 1), v |-> BNat(v)]
A(v, a, k, cs) == [v |-> v, a |-> a, k |-> k, n |-> 5, c |-> cs]
Full(v) == IF v \in {5, 6} THEN 10 ELSE 15
Plain(v, a) == A(v, a, "ok", <<G(Full(v), 1000000 * a, 500000 * v)>>)
All == SetToSeq({Plain(q[1], q[2]) : q \in Quotes})
But(P(_, _), k) == SetToSeq({IF P(q[1], q[2]) THEN [Plain(q[1], q[2]) EXCEPT !.k = k] ELSE Plain(q[1], q[2]) : q \in Quotes})
OfAsset(S) == SetToSeq({Plain(q[1], q[2]) : q \in {x \in Quotes : x[2] \in S}})
Run(b, m, ans, pool, kill, mem) == [op |-> "run", blk |-> b, ms |-> m, keys |-> <<1, 2>>, mem |-> mem, ans |-> ans, pool |-> pool, kill |-> kill, intr |-> 0]
Step == 12000
Kinds == {"refuse", "io", "late", "code", "slow", "trunc", "utf8", "json", "neg", "text", "huge"}
Two(v, a, n, m) == A(v, a, "ok", <<G(n, 1000000, 500000), G(m, 3000000, 1000000)>>)
Mixes ==
  {But(LAMBDA v, a : v = w, k) : w \in 1..6, k \in Kinds}
  \cup {But(LAMBDA v, a : a = w, k) : w \in 1..4, k \in {"io", "json"}} \cup {But(LAMBDA v, a : TRUE, k) : k \in Kinds}
  \cup {<<Two(v, a, n, m)>> : v \in {1}, a \in {1}, n \in {0, 1, 9, 15}, m \in {0, 1, 7, 15}}
  \cup {<<Two(v, 3, n, m), Plain(2, 3)>> : v \in {4}, n \in {1, 9, 15}, m \in {0, 1, 7, 15}}
  \cup {<<Two(v, 4, n, 10 - n)>> : v \in {5, 6}, n \in {0, 1, 9, 10}} \cup {<<Two(v, 4, n, 0)>> : v \in {5, 6}, n \in {0, 1, 9}}
  \cup {<<Two(v, 1, 14, 0), Plain(1, 1)>> : v \in {2, 3}} \cup {<<A(v, 1, "ok", <<G(15, 1000000, 0)>>), Plain(1, 1)>> : v \in {2, 3, 4}}

VARIABLES s, b, m, o, h, x, g
vars == <<s, b, m, o, h, x, g>>
VView == <<s, b, m - s.lock, g>>
Ops ==
  CASE Profile = "windows" ->
         {Run(b + n, m + Step, All, p, 0, <<1, 2>>) : n \in {0, 1, 2}, p \in BOOLEAN}
         \cup {Run(b + n, m + Step, OfAsset(S), TRUE, k, <<1, 2>>) : n \in {1}, S \in {{1, 2}, {4}, {}}, k \in {0, -2}}
         \cup {Run(b + 1, m + Step, All, TRUE, k, <<1, 2>>) : k \in {-1, -2, 1, 5, 12}}
         \cup {[Run(b + 1, m + Step, All, TRUE, 0, <<1, 2>>) EXCEPT !.intr = k] : k \in {1, 12}}
         \cup {Run(b + 1, m + 3 * Step, All, TRUE, 0, <<1, 2>>)}
         \cup {[op |-> "wipe"], [op |-> "garbage", n |-> 77], [op |-> "older", n |-> Max2(0, b - 1)]}
    [] Profile = "keys" ->
         {[Run(b + 1, m + Step, All, p, 0, mem) EXCEPT !.keys = ks] : p \in BOOLEAN, mem \in {<<>>, <<1>>, <<2>>, <<3>>, <<1, 3>>}, ks \in {<<>>, <<1>>, <<1, 2>>, <<2, 1>>, <<3, 2, 1>>}}
    [] Profile = "answers" ->
         {Run(((b \div 3) + 1) * 3, m + 3 * Step, a, TRUE, 0, <<1, 2>>) : a \in Mixes} \cup {Run(b, m + Step, All, TRUE, 0, <<1, 2>>)}
Kind(y, r) ==
  IF y.op # "run" THEN <<y.op, s.last>>
  ELSE <<r.v, Due(Cfg, s, y), Priced(Cfg, s, y), Held(s, y), y.pool, y.kill, y.intr, InWindow(Cfg, y.blk),
         IF Profile = "keys" THEN <<y.keys, y.mem>> ELSE IF Profile = "answers" THEN y.ans ELSE <<>>, y.blk = b, s.last = Fresh.last>>
\* g: what was fed last, and in which block, whatever the node remembers
Init == s = Fresh /\ b = 2 /\ m = 1000 /\ o = [op |-> "init"] /\ h = <<>> /\ x = <<>> /\ g = [a \in Assets |-> <<-9>>] /\ TLCSet(1, {})
Next ==
  /\ TLCGet("level") <= Depth
  /\ \E y \in Ops :
       /\ (y.op = "run" => y.blk <= MaxBlock)
       /\ LET r == Outcome(Cfg, s, y)   k == Kind(y, r) IN
          /\ IF Emit /\ k \notin TLCGet(1)
             THEN TLCSet(1, TLCGet(1) \cup {k}) /\ PrintT("@SCN " \o ToJson([cfg |-> Cfg, ops |-> Append(h, y)]))
             ELSE TRUE
          /\ s' = Follow(Cfg, s, y, r) /\ o' = y /\ x' = r
          /\ b' = (IF y.op = "run" THEN y.blk ELSE b) /\ m' = (IF y.op = "run" THEN y.ms ELSE m)
          /\ g' = (IF y.op # "run" THEN g ELSE [a \in Assets |-> IF a \in Fed(r) THEN <<y.blk, r.v = "ok">> ELSE g[a]])
          /\ h' = IF Emit THEN Append(h, y) ELSE h
Spec == Init /\ [][Next]_vars
Steps == [][StepFails(Cfg, s, o', x') = {}]_vars
\* a worker that is not killed and whose memory is left alone feeds nothing again within a window
OncePerWindow == [][o'.op = "run" =>
  \A a \in Assets : g'[a] # g[a] /\ Len(g[a]) = 2 /\ g[a][2] /\ s.last[a] = g[a][1] =>
     o'.blk \div Cfg.interval # g[a][1] \div Cfg.interval]_vars
\* and whatever it fed is fed in a window
InvWindow == \A a \in Assets : Len(g[a]) = 2 => InWindow(Cfg, g[a][1])
=============================================================================
