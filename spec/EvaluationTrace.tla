---------------------------- MODULE EvaluationTrace ----------------------------
(* Recorded calls of the evaluation engine against the specification.           *)
EXTENDS Evaluation, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, i
Expect(e) ==
  CASE e.k = "match" -> [x \in DOMAIN e.vs |-> Match(e.vs[x], e.op, e.fs, e.rx)]
    [] e.k = "eval" -> LET r == Evaluate(e.ctx, e.flags) IN
         [results |-> [x \in DOMAIN r |-> r[x].r], steps |-> [x \in DOMAIN r |-> r[x].steps], traced |-> TRUE, again |-> TRUE, untouched |-> TRUE]
    [] e.k = "trace" -> LET r == Evaluate(e.ctx, e.flags) IN
         [traces |-> [x \in DOMAIN r |-> r[x].why], only |-> TRUE, same |-> TRUE, untouched |-> TRUE]
    [] e.k = "bucket" -> [x \in DOMAIN e.vs |-> LET a == Assigned(e.b, e.vs[x]) IN IF a = "~" THEN "default" ELSE a]
    [] e.k = "sort" -> IF Cyclic(e.deps, Range(e.req)) THEN "cycle" ELSE "ordered"
Good(e, x) ==
  IF e.k = "sort" THEN (x = e.got.what /\ (x = "ordered" => GoodOrder(e.deps, Range(e.req), e.got.out)))
  ELSE x = e.got
Play ==
  /\ i <= Len(Traces[tid])
  /\ LET e == Traces[tid][i]  x == Expect(e) IN
     IF Good(e, x) THEN TRUE ELSE PrintT("M" \o ToJson(<<tid, i, x, e.got>>))
  /\ i' = i + 1 /\ tid' = tid
Done == /\ i = Len(Traces[tid]) + 1 /\ PrintT("D" \o ToJson(<<tid>>)) /\ i' = i + 1 /\ tid' = tid
Init == tid \in 1..Len(Traces) /\ i = 1
Next == Play \/ Done
===============================================================================
