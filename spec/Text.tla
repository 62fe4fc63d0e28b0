--------------------------------- MODULE Text ---------------------------------
(* Text as sequences of UTF-16 code units: what comparing, searching, folding  *)
(* and reading numbers and versions mean.                                      *)
EXTENDS Integers, Sequences, FiniteSets
Digit(c) == c >= 48 /\ c <= 57
Lower1(c) == IF (c >= 65 /\ c <= 90) \/ (c >= 192 /\ c <= 222 /\ c # 215) THEN c + 32 ELSE c
Lower(t) == [i \in 1..Len(t) |-> Lower1(t[i])]
At(t, u, i) == i + Len(u) - 1 <= Len(t) /\ \A j \in 1..Len(u) : t[i + j - 1] = u[j]
Includes(t, u) == \E i \in 1..(Len(t) + 1) : At(t, u, i)
StartsWith(t, u) == At(t, u, 1)
EndsWith(t, u) == Len(u) <= Len(t) /\ At(t, u, Len(t) - Len(u) + 1)
(* -1, 0, 1 by code units, a prefix before what it is a prefix of *)
Cmp(t, u) ==
  LET n == IF Len(t) < Len(u) THEN Len(t) ELSE Len(u)
      d == {i \in 1..n : t[i] # u[i]} IN
  IF d = {} THEN (IF Len(t) = Len(u) THEN 0 ELSE IF Len(t) < Len(u) THEN -1 ELSE 1)
  ELSE LET k == CHOOSE i \in d : \A j \in d : i <= j IN IF t[k] < u[k] THEN -1 ELSE 1
IntCmp(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
None == [ok |-> FALSE]
(* the longest run of digits from i *)
RECURSIVE Run(_, _)
Run(t, i) == IF i <= Len(t) /\ Digit(t[i]) THEN 1 + Run(t, i + 1) ELSE 0
RECURSIVE Value(_, _, _)
Value(t, i, n) == IF n = 0 THEN 0 ELSE 10 * Value(t, i, n - 1) + (t[i + n - 1] - 48)
(* a number: optional sign, digits, at most three decimals; in thousandths *)
Num(t) ==
  LET neg == Len(t) > 0 /\ t[1] = 45
      s == IF Len(t) > 0 /\ t[1] \in {43, 45} THEN 2 ELSE 1
      n == Run(t, s)
      p == s + n
      dot == p <= Len(t) /\ t[p] = 46
      m == IF dot THEN Run(t, p + 1) ELSE 0
      end == p + (IF dot THEN 1 + m ELSE 0)
      whole == Value(t, s, n)
      frac == Value(t, p + 1, m) * (IF m = 0 THEN 0 ELSE IF m = 1 THEN 100 ELSE IF m = 2 THEN 10 ELSE 1)
      v == whole * 1000 + frac IN
  IF n + m > 0 /\ end = Len(t) + 1 THEN [ok |-> TRUE, v |-> IF neg THEN 0 - v ELSE v] ELSE None
NumCmp(a, b) == IntCmp(a.v, b.v)
(* a version: major.minor[.patch[-prerelease]] *)
Word(c) == Digit(c) \/ (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ c = 95 \/ c = 45
PreOk(t, i) == \* dot separated words, possibly ending in a dot; may be nothing
  \A j \in i..Len(t) : Word(t[j]) \/ (t[j] = 46 /\ j > i /\ t[j - 1] # 46)
Ver(t) ==
  LET n1 == Run(t, 1)
      n2 == IF n1 + 1 <= Len(t) /\ t[n1 + 1] = 46 THEN Run(t, n1 + 2) ELSE 0
      e2 == n1 + 1 + n2                     \* last position of major.minor
      has3 == e2 + 1 <= Len(t) /\ t[e2 + 1] = 46
      n3 == IF has3 THEN Run(t, e2 + 2) ELSE 0
      e3 == e2 + 1 + n3
      pre == has3 /\ e3 + 1 <= Len(t) /\ t[e3 + 1] = 45
      v(p) == [ok |-> TRUE, n |-> <<Value(t, 1, n1), Value(t, n1 + 2, n2), IF has3 THEN Value(t, e2 + 2, n3) ELSE 0>>, pre |-> p] IN
  IF n1 = 0 \/ n2 = 0 THEN None
  ELSE IF ~has3 THEN (IF e2 = Len(t) THEN v(<<>>) ELSE None)
  ELSE IF n3 = 0 THEN None
  ELSE IF e3 = Len(t) THEN v(<<>>)
  ELSE IF pre /\ PreOk(t, e3 + 2) THEN v(SubSeq(t, e3 + 1, Len(t)))
  ELSE None
VerCmp(a, b) ==
  LET d == {i \in 1..3 : a.n[i] # b.n[i]} IN
  IF d # {} THEN LET k == CHOOSE i \in d : \A j \in d : i <= j IN IntCmp(a.n[k], b.n[k])
  ELSE IF a.pre = <<>> /\ b.pre = <<>> THEN 0
  ELSE IF a.pre = <<>> THEN 1
  ELSE IF b.pre = <<>> THEN -1
  ELSE Cmp(a.pre, b.pre)
===============================================================================
