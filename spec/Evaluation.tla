------------------------------ MODULE Evaluation ------------------------------
(* What evaluating flags for a user context means.                             *)
(* Values: [t |-> "x"] absent; otherwise c is its text (for lists and objects  *)
(* their JSON text); "s" text (j: its elements when the text is a JSON list),  *)
(* "n", "b", "l" list with elements v, "o" object with fields f.               *)
EXTENDS Integers, Sequences, FiniteSets, Text, Murmur3
X == [t |-> "x"]
Range(q) == {q[i] : i \in DOMAIN q}
NoneText == <<40, 110, 111, 110, 101, 41>>
TrueText == <<116, 114, 117, 101>>
FalseText == <<102, 97, 108, 115, 101>>

SetOps == {"set is", "set is not", "set contains", "set does not contain", "set contains any", "set does not contain any"}
LessOps == {"less", "less or equal", "greater", "greater or equal"}
VersionOps == {"version less", "version less or equal", "version greater", "version greater or equal"}
Holds(op, c) ==
  CASE op \in {"less", "version less"} -> c < 0
    [] op \in {"less or equal", "version less or equal"} -> c <= 0
    [] op \in {"greater", "version greater"} -> c > 0
    [] op \in {"greater or equal", "version greater or equal"} -> c >= 0

(* an absent value is matched by naming it, or by a negation not naming it *)
MatchAbsent(op, fs) ==
  LET named == NoneText \in Range(fs) IN
  IF op \in {"is", "contains", "set is", "set contains", "set contains any"} \cup LessOps \cup VersionOps THEN named
  ELSE IF op \in {"is not", "does not contain", "set does not contain", "set does not contain any"} THEN ~named
  ELSE FALSE

Bool(t) == Lower(t) \in {TrueText, FalseText}
(* equality with one of fs; truth values in any letter case *)
IsOneOf(t, fs) ==
  IF Bool(t) /\ \E f \in Range(fs) : Bool(f) THEN \E f \in Range(fs) : Lower(f) = Lower(t)
  ELSE t \in Range(fs)
Compare(t, op, fs, Read(_), C(_, _)) ==
  LET rs == {Read(f) : f \in Range(fs)}
      ok == {r \in rs : r.ok}
      me == Read(t) IN
  IF ~me.ok \/ ok = {} THEN \E f \in Range(fs) : Holds(op, Cmp(t, f))
  ELSE \E r \in ok : Holds(op, C(me, r))
(* regular expressions of a few shapes: k, with text x (and y) *)
Regex(t, r) ==
  CASE r.k = "prefix" -> StartsWith(t, r.x)
    [] r.k = "suffix" -> EndsWith(t, r.x)
    [] r.k = "exact" -> t = r.x
    [] r.k = "has" -> Includes(t, r.x)
    [] r.k = "either" -> Includes(t, r.x) \/ Includes(t, r.y)
    [] r.k = "digits" -> Len(t) > 0 /\ \A i \in DOMAIN t : Digit(t[i])
    [] r.k = "any" -> TRUE
MatchText(t, op, fs, rx) ==
  CASE op = "is" -> IsOneOf(t, fs)
    [] op = "is not" -> ~IsOneOf(t, fs)
    [] op = "contains" -> \E f \in Range(fs) : Includes(Lower(t), Lower(f))
    [] op = "does not contain" -> ~\E f \in Range(fs) : Includes(Lower(t), Lower(f))
    [] op \in LessOps -> Compare(t, op, fs, Num, NumCmp)
    [] op \in VersionOps -> Compare(t, op, fs, Ver, VerCmp)
    [] op = "regex match" -> \E r \in Range(rx) : Regex(t, r)
    [] op = "regex does not match" -> ~\E r \in Range(rx) : Regex(t, r)
    [] OTHER -> FALSE

(* sets of texts; their members compare as "is" does *)
MatchSet(ts, op, fs) ==
  LET all == Len(ts) >= Len(fs) /\ \A f \in Range(fs) : IsOneOf(f, ts)
      any == \E f \in Range(fs) : IsOneOf(f, ts)
      same == Range(ts) = Range(fs) IN
  CASE op = "set is" -> same
    [] op = "set is not" -> ~same
    [] op = "set contains" -> all
    [] op = "set does not contain" -> ~all
    [] op = "set contains any" -> any
    [] op = "set does not contain any" -> ~any

Texts(vs) == LET ts == [i \in DOMAIN vs |-> IF vs[i].t = "x" THEN <<>> ELSE vs[i].c] IN SelectSeq(ts, LAMBDA x : x # <<>>)
IsList(v) == v.t = "l" \/ (v.t = "s" /\ Len(v.c) > 0 /\ v.c[1] = 91 /\ "j" \in DOMAIN v)
Elements(v) == Texts(IF v.t = "l" THEN v.v ELSE v.j)

Match(v, op, fs, rx) ==
  IF v.t = "x" THEN MatchAbsent(op, fs)
  ELSE IF op \in SetOps THEN IsList(v) /\ MatchSet(Elements(v), op, fs)
  ELSE IF IsList(v) THEN \E e \in Range(Elements(v)) : MatchText(e, op, fs, rx)
  ELSE MatchText(v.c, op, fs, rx)

(* ---- flags --------------------------------------------------------------------- *)
RECURSIVE Select(_, _)
Select(v, path) ==
  IF path = <<>> THEN v
  ELSE IF v.t = "o" /\ Head(path) \in DOMAIN v.f THEN Select(v.f[Head(path)], Tail(path))
  ELSE X
Property(target, path) == IF path = <<>> THEN X ELSE Select(target, path)

CondHolds(target, c) == Match(Property(target, c.sel), c.op, c.fs, c.rx)
SegmentHolds(target, g) == ~g.hasConds \/ \E k \in DOMAIN g.conds : \A j \in DOMAIN g.conds[k] : CondHolds(target, g.conds[k][j])

In(x, r) == r[1] <= x /\ x < r[2]
First(q, P(_)) == LET d == {i \in DOMAIN q : P(q[i])} IN IF d = {} THEN 0 ELSE CHOOSE i \in d : \A j \in d : i <= j
Assigned(b, v) ==  \* the variant of the first distribution, of any allocation, that contains the user, or "~"
  LET h == Buckets(Hash(b.salt \o <<47>> \o v))
      flat == {<<i, j>> \in UNION {{i} \X DOMAIN b.allocs[i].dists : i \in DOMAIN b.allocs} :
                  In(h.r, b.allocs[i].range) /\ In(h.q, b.allocs[i].dists[j].range)} IN
  IF flat = {} THEN "~"
  ELSE LET p == CHOOSE p \in flat : \A q \in flat : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2]) IN b.allocs[p[1]].dists[p[2]].variant
Bucketed(target, g) ==
  IF ~g.hasBucket THEN g.variant
  ELSE LET v == Property(target, g.bucket.sel) IN
       IF v.t = "x" \/ v.c = <<>> THEN g.variant
       ELSE LET a == Assigned(g.bucket, v.c) IN IF a = "~" THEN g.variant ELSE a

Overlay(lo, hi) == [x \in DOMAIN lo \cup DOMAIN hi |-> IF x \in DOMAIN hi THEN hi[x] ELSE lo[x]]
NoResult == [has |-> FALSE]
(* segment g of flag f gives something *)
Gives(target, f, g) == SegmentHolds(target, g) /\ Bucketed(target, g) # "~" /\ Bucketed(target, g) \in DOMAIN f.variants
EvalFlag(target, f) ==
  LET i == First(f.segments, LAMBDA g : Gives(target, f, g)) IN
  IF i = 0 THEN NoResult
  ELSE LET g == f.segments[i]  k == Bucketed(target, g) IN
       [has |-> TRUE, variant |-> k, md |-> Overlay(Overlay(f.md, g.md), f.variants[k].md)]
(* what conditions of later flags see of a result *)
AsValue(f, r) ==
  [t |-> "o", c |-> <<>>, f |->
     [x \in ({"metadata"} \cup DOMAIN f.variants[r.variant].f) |->
        IF x = "metadata" THEN [t |-> "o", c |-> <<>>, f |-> r.md] ELSE f.variants[r.variant].f[x]]]
(* how a flag is decided: of every segment, the conditions looked at up to the one  *)
(* that decides, what they looked at, whether the segment passed, what it gives      *)
Judged(target, cs) ==
  LET bad == {j \in DOMAIN cs : ~CondHolds(target, cs[j])}
      n == IF bad = {} THEN Len(cs) ELSE CHOOSE j \in bad : \A k \in bad : j <= k
  IN [j \in 1..n |-> [own |-> TRUE, held |-> CondHolds(target, cs[j]), value |-> Property(target, cs[j].sel)]]
Looked(target, g) ==
  LET good == {k \in DOMAIN g.conds : \A j \in DOMAIN g.conds[k] : CondHolds(target, g.conds[k][j])}
      n == IF good = {} THEN Len(g.conds) ELSE CHOOSE k \in good : \A m \in good : k <= m
  IN [k \in 1..n |-> Judged(target, g.conds[k])]
Step(target, g) ==
  LET ok == SegmentHolds(target, g)  v == IF ok THEN Bucketed(target, g) ELSE "~"
  IN [has |-> g.hasConds, passed |-> ok, bucketed |-> v # "~", matched |-> v # "~", variant |-> v, md |-> g.md, conds |-> Looked(target, g)]
Why(target, f) ==
  LET i == First(f.segments, LAMBDA g : Gives(target, f, g))
  IN [key |-> f.key, matched |-> i # 0, segment |-> IF i = 0 \/ "segmentName" \notin DOMAIN f.segments[i].md THEN X ELSE f.segments[i].md["segmentName"],
      steps |-> [j \in DOMAIN f.segments |-> Step(target, f.segments[j])]]
Results0 == [x \in {} |-> X]
RECURSIVE EvalAll(_, _, _, _)
EvalAll(ctx, flags, i, res) ==
  IF i > Len(flags) THEN <<>>
  ELSE LET f == flags[i]
           target == [t |-> "o", c |-> <<>>, f |-> [x \in {"context", "result"} |-> IF x = "context" THEN ctx ELSE [t |-> "o", c |-> <<>>, f |-> res]]]
           r == EvalFlag(target, f)
           res2 == IF r.has THEN [x \in DOMAIN res \cup {f.key} |-> IF x = f.key THEN AsValue(f, r) ELSE res[x]] ELSE res
           steps == [j \in DOMAIN f.segments |->
                       LET ok == SegmentHolds(target, f.segments[j]) IN
                       [conds |-> ok, variant |-> IF ok THEN Bucketed(target, f.segments[j]) ELSE "~"]] IN
       <<[r |-> r, steps |-> steps, why |-> Why(target, f)]>> \o EvalAll(ctx, flags, i + 1, res2)
Evaluate(ctx, flags) == EvalAll(ctx, flags, 1, Results0)

(* ---- ordering ------------------------------------------------------------------- *)
(* deps: [flag -> sequence of names]; names outside its domain do not exist *)
RECURSIVE Reach(_, _)
Reach(deps, S) ==
  LET T == S \cup (UNION {Range(deps[x]) : x \in S} \cap DOMAIN deps) IN
  IF T = S THEN S ELSE Reach(deps, T)
Wanted(deps, req) == Reach(deps, req \cap DOMAIN deps)
After(deps, x) == Reach(deps, Range(deps[x]) \cap DOMAIN deps)
Cyclic(deps, req) == \E x \in Wanted(deps, req) : x \in After(deps, x)
GoodOrder(deps, req, out) ==
  /\ Len(out) = Cardinality(Wanted(deps, req))
  /\ Range(out) = Wanted(deps, req)
  /\ \A i, j \in DOMAIN out : (out[j] \in Range(deps[out[i]])) => j < i
===============================================================================
