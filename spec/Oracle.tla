-------------------------------- MODULE Oracle --------------------------------
(***************************************************************************)
(* The price feed of a collator (oracle-ocw): an off-chain worker that runs *)
(* at every block, asks the trading venues for recent candles and sends the *)
(* volume-weighted prices in a signed transaction.                         *)
(* c: interval, window (in blocks).  s: last[a] block in which asset a was *)
(* fed last as far as the node remembers, lock (the time, in ms, until     *)
(* which a killed worker's lock stands; -1: none).  An answer: v venue, a  *)
(* asset, k what happens to the request, c the candles in groups: n of     *)
(* them with h, l, c (prices) and v (volume), in millionths (Big.tla).     *)
(* Operation "run": blk, ms, keys (in the node's keystore), mem (accounts  *)
(* allowed to feed), ans, pool (accepts transactions), kill (at request k; *)
(* -1 before, -2 right after the transaction is in the pool), intr (a      *)
(* second worker runs at request k).                                       *)
(* Result: asked, txs (who, feed of <<asset, price>>, ok), ms at the end,  *)
(* intr (result of the second worker).                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Big, TLC
a ++ b == BAdd(a, b)
a -- b == BSub(a, b)
a ** b == BMul(a, b)
a \preceq b == BLeq(a, b)
a \prec b == ~BLeq(b, a)
Div(a, b) == BMulDiv(a, "1", b)
Sum(q) == FoldSeq(LAMBDA x, acc : x ++ acc, "0", q)
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

Assets == 1..4                       \* USDT, USDC, DOT, PLMC
Quotes == {<<v, a>> : v \in 1..3, a \in 1..3} \cup {<<4, 1>>, <<4, 3>>, <<5, 4>>, <<6, 4>>}
LockTime == 30000

\* ---- what an answer is worth ------------------------------------------------
Count(cs) == FoldSeq(LAMBDA x, acc : x.n + acc, 0, cs)
\* candles a venue has to give, and the most that count: the latest 15, or 10 of half an hour for the last asset
Needs(v) == CASE v \in {1, 5} -> 1 [] v = 6 -> 10 [] OTHER -> 15
Takes(v) == IF v \in {5, 6} THEN 10 ELSE 15
\* how many of each group count: venue 1 lists the latest last, the others first
UsedOf(v, cs) ==
  LET before(k) == FoldSeq(LAMBDA x, acc : x.n + acc, 0, SubSeq(cs, 1, k - 1))
      after(k) == FoldSeq(LAMBDA x, acc : x.n + acc, 0, SubSeq(cs, k + 1, Len(cs)))
  IN [k \in DOMAIN cs |-> Min2(cs[k].n, Max2(0, Takes(v) - (IF v = 1 THEN after(k) ELSE before(k))))]
VolumeOf(x) == LET u == UsedOf(x.v, x.c) IN Sum([k \in DOMAIN u |-> x.c[k].v ** BNat(u[k])])
\* three times the value traded, in millionths of millionths
ValueOf(x) == LET u == UsedOf(x.v, x.c) IN Sum([k \in DOMAIN u |-> (x.c[k].v ** BNat(u[k])) ** ((x.c[k].h ++ x.c[k].l) ++ x.c[k].c)])
Valid(x) == x.k = "ok" /\ Count(x.c) >= Needs(x.v) /\ VolumeOf(x) # "0"
Answers(o, a) == {k \in DOMAIN o.ans : o.ans[k].a = a /\ <<o.ans[k].v, a>> \in Quotes /\ Valid(o.ans[k])}
Volume(o, a) == FoldSet(LAMBDA k, acc : acc ++ VolumeOf(o.ans[k]), "0", Answers(o, a))
Value(o, a) == FoldSet(LAMBDA k, acc : acc ++ ValueOf(o.ans[k]), "0", Answers(o, a))
E12 == BPow10(12)
E18 == BPow10(18)
\* price with 18 decimals, rounded down: (Value / 10^12 / 3) / (Volume / 10^6) * 10^18
PriceOf(o, a) == BMulDiv(Value(o, a), E12, "3" ** Volume(o, a))
\* sums that the fixed-point numbers of the chain can hold
Holds(o, a) == Value(o, a) \prec BPow10(32)
\* binary and decimal rounding of the figures, far below what a price is quoted to
Slack(p) == BPow10(10) ++ Div(p, E12)
Near(p, q, tol) == p \preceq (q ++ tol) /\ q \preceq (p ++ tol)

\* ---- the worker -------------------------------------------------------------
Member(o) == ToSet(o.keys) \cap ToSet(o.mem)
InWindow(c, b) == b % c.interval < c.window
Held(s, o) == s.lock >= o.ms
Due(c, s, o) == IF Member(o) = {} \/ Held(s, o) \/ ~InWindow(c, o.blk) THEN {}
                ELSE {a \in Assets : s.last[a] < Max2(0, o.blk - c.window)}
Priced(c, s, o) == {a \in Due(c, s, o) : Answers(o, a) # {}}
Asking(c, s, o) == {q \in Quotes : q[2] \in Due(c, s, o)}
Fresh == [last |-> [a \in Assets |-> 0], lock |-> -1]
Init0(c) == Fresh

Fed(r) == UNION {{r.txs[k].feed[j].a : j \in DOMAIN r.txs[k].feed} : k \in {x \in DOMAIN r.txs : r.txs[x].ok}}
\* what the node remembers after an operation with the observed result
Follow(c, s, o, r) ==
  CASE o.op = "wipe" -> Fresh
    [] o.op = "garbage" -> [s EXCEPT !.last = Fresh.last]
    [] o.op = "older" -> [s EXCEPT !.last = [a \in Assets |-> IF a = 4 THEN 0 ELSE o.n]]
    [] o.op = "run" ->
         IF r.v = "killed" THEN [s EXCEPT !.lock = o.ms + LockTime]
         ELSE IF Due(c, s, o) = {} THEN s
         ELSE [last |-> [a \in Assets |-> IF a \in Fed(r) THEN o.blk ELSE s.last[a]], lock |-> -1]
\* what a correct worker does
Outcome(c, s, o) ==
  LET pr == Priced(c, s, o)   n == Cardinality(Asking(c, s, o))
      early == o.kill > 0 /\ o.kill <= n
      feed == SetToSortSeq({[a |-> a, p |-> PriceOf(o, a)] : a \in pr}, LAMBDA x, y : x.a < y.a)
      late == pr # {} /\ (o.kill = -1 \/ (o.kill = -2 /\ o.pool))
  IN IF o.op # "run" THEN [v |-> "ok", asked |-> <<>>, txs |-> <<>>, intr |-> <<>>, ms |-> 0]
     ELSE [v |-> IF early \/ late THEN "killed" ELSE "ok",
           asked |-> SetToSeq(Asking(c, s, o)), intr |-> <<>>, ms |-> o.ms,
           txs |-> IF early \/ pr = {} THEN <<>>
                   ELSE <<[who |-> CHOOSE k \in Member(o) : TRUE, feed |-> feed, ok |-> o.pool /\ o.kill # -1]>>]

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
Rule(p, name, holds) == IF holds THEN {} ELSE {<<p, name>>}
AssetsOf(tx) == {tx.feed[j].a : j \in DOMAIN tx.feed}
Idle(r) == r.asked = <<>> /\ r.txs = <<>>
AllFine(c, s, o, a) == \A q \in Quotes : q[2] = a => \E k \in DOMAIN o.ans : o.ans[k].v = q[1] /\ o.ans[k].a = a /\ Valid(o.ans[k])
StepFails(c, s, o, r) ==
  IF o.op # "run" THEN {}
  ELSE LET due == Due(c, s, o)   pr == Priced(c, s, o)
           sent == UNION {AssetsOf(r.txs[k]) : k \in DOMAIN r.txs}
           missing == IF r.v = "ok" THEN pr \ sent ELSE {}
           times(a) == Cardinality({<<k, j>> \in (DOMAIN r.txs) \X (1..9) : j \in DOMAIN r.txs[k].feed /\ r.txs[k].feed[j].a = a})
       IN Rule("O04", "fed by one who may not", \A k \in DOMAIN r.txs : r.txs[k].who \in Member(o))
          \cup Rule("O04", "active without a key that may feed", Member(o) = {} => Idle(r))
          \cup Rule("O01", "asked or fed out of turn", Member(o) = {} \/ (sent \subseteq due /\ \A k \in DOMAIN r.asked : r.asked[k][2] \in due))
          \cup Rule("O01", "fed twice at once", \A a \in sent : times(a) = 1)
          \cup Rule("O01", "two workers at once", \A k \in DOMAIN r.intr : r.intr[k].v = "ok" /\ Idle(r.intr[k]))
          \cup Rule("O01", "not fed when due", \A a \in missing : ~AllFine(c, s, o, a))
          \cup Rule("O03", "a bad answer kept a price back", \A a \in missing : AllFine(c, s, o, a))
          \cup Rule("O03", "fed without a valid answer", sent \cap due \subseteq pr)
          \cup Rule("O03", "worker aborted", r.v # "panic")
          \cup Rule("O03", "held up beyond its lock", r.ms <= o.ms + LockTime)
          \cup Rule("O02", "price", \A k \in DOMAIN r.txs : \A j \in DOMAIN r.txs[k].feed :
                 LET f == r.txs[k].feed[j] IN f.a \in pr /\ Holds(o, f.a) => Near(f.p, PriceOf(o, f.a), Slack(f.p)))
=============================================================================
