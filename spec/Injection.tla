------------------------------ MODULE Injection ------------------------------
(* The helpers an injected script is given: an element is placed as soon as the  *)
(* page has a place for it, placed again whenever the page removes it, at most    *)
(* Limit times within a second, until the injection is cancelled.                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS Elems, Opts, Sels, Steps, Bursts, Limit, Acts
VARIABLES s, act, obs
vars == <<s, act, obs>>
view == <<s>>
Pick(S) == S
Parents == {"p", "q"}

(* at: the parents in the page; sib: where the sibling is: "-", in a parent, or   *)
(*   within something in it ("p/")                                                 *)
(* on: helpers asked to place; in: where the element is ("-", a parent, or with    *)
(*   the sibling in "p/"); ages: of its last placements, oldest first              *)
(* seen: for each selector waited for: no, waiting, found                          *)
Start == [at |-> {}, sib |-> "-", on |-> [e \in Elems |-> FALSE], in |-> [e \in Elems |-> "-"], ages |-> [e \in Elems |-> <<>>], calls |-> [e \in Elems |-> 0], done |-> [e \in Elems |-> FALSE],
  seen |-> [x \in Sels |-> "no"], off |-> FALSE]
SibIn(st, p) == st.sib \in {p, p \o "/"}
(* Opts[e]: [parent, sib] *)
Placeable(st, e) == Opts[e].parent \in st.at /\ (Opts[e].sib => SibIn(st, Opts[e].parent))
Place(st, e) == IF Opts[e].sib THEN st.sib ELSE Opts[e].parent
Check(st, e) == IF st.on[e] /\ ~st.off /\ st.in[e] = "-" /\ Len(st.ages[e]) < Limit /\ Placeable(st, e)
  THEN [st EXCEPT !.in[e] = Place(st, e), !.ages[e] = Append(@, 0), !.calls[e] = @ + 1, !.done[e] = TRUE] ELSE st
Exists(st, x) == IF x \in Parents THEN x \in st.at ELSE st.sib # "-"
Found(st) == [st EXCEPT !.seen = [x \in Sels |-> IF @[x] = "waiting" /\ ~st.off /\ Exists(st, x) THEN "found" ELSE @[x]]]
ElemSeq == SetToSeq(Elems)
CheckAll(st) == Found(FoldLeft(Check, st, ElemSeq))

(* time: a placement counts for a second *)
Older(st, ms) == [st EXCEPT !.ages = [e \in Elems |-> [i \in DOMAIN @[e] |-> @[e][i] + ms]]]
Lapse(st) == [st EXCEPT !.ages = [e \in Elems |-> SelectSeq(@[e], LAMBDA a : a < 1000)]]
Least(a, b) == IF a < b THEN a ELSE b
(* (one value a step: v is computed before it is used) *)
RECURSIVE Advance(_, _)
Advance(st, ms) ==
  LET left == {1000 - st.ages[e][1] : e \in {x \in Elems : st.ages[x] # <<>>}}
      next == IF left = {} THEN ms ELSE Least(ms, CHOOSE m \in left : \A n \in left : m <= n)
      st2 == Lapse(Older(st, next))
      lapsed == SelectSeq(ElemSeq, LAMBDA e : Len(st2.ages[e]) < Len(st.ages[e]))
  IN IF ms = 0 THEN st ELSE CHOOSE r \in {Advance(v, ms - next) : v \in {FoldLeft(Check, st2, lapsed)}} : TRUE

(* the page removes the element, and again as soon as it is back *)
Fight(st, e, k) == FoldLeft(LAMBDA v, i : CheckAll([v EXCEPT !.in[e] = "-"]), st, [i \in 1..k |-> i])

Obs(st) == [in |-> st.in, calls |-> st.calls, done |-> st.done, seen |-> st.seen, paused |-> FALSE]
Do(a, st) == a.n \in Acts /\ s' = st /\ act' = a /\ obs' = Obs(st)
Init == s = Start /\ act = [n |-> "init"] /\ obs = <<>>

Insert == \E e \in Elems : ~s.on[e] /\ Do([n |-> "insert", e |-> e], Check([s EXCEPT !.on[e] = TRUE], e))
WaitFor == \E x \in Sels : s.seen[x] = "no" /\ ~s.off /\ Do([n |-> "waitfor", x |-> x], Found([s EXCEPT !.seen[x] = "waiting"]))
Put == \E p \in Parents \ s.at : Do([n |-> "put", p |-> p], CheckAll([s EXCEPT !.at = @ \cup {p}]))
(* what is in a removed parent goes with it *)
Drop == \E p \in s.at : Do([n |-> "drop", p |-> p],
  CheckAll([s EXCEPT !.at = @ \ {p}, !.sib = IF @ \in {p, p \o "/"} THEN "-" ELSE @, !.in = [e \in Elems |-> IF @[e] \in {p, p \o "/"} THEN "-" ELSE @[e]]]))
PutSib == s.sib = "-" /\ \E p \in s.at, deep \in BOOLEAN : Do([n |-> "sib", p |-> p, deep |-> deep], CheckAll([s EXCEPT !.sib = IF deep THEN p \o "/" ELSE p]))
(* a wrapper goes with what is in it *)
DropSib == s.sib # "-" /\ Do([n |-> "nosib"],
  CheckAll([s EXCEPT !.sib = "-", !.in = [e \in Elems |-> IF @[e] \in {"p/", "q/"} THEN "-" ELSE @[e]]]))
TakeOut == \E e \in Elems, k \in Bursts : s.in[e] # "-" /\ Do([n |-> "remove", e |-> e, k |-> k], Fight(s, e, k))
(* into another document of the page, that of a frame, which is out of this one *)
Adopt == \E e \in Elems : s.in[e] # "-" /\ Do([n |-> "adopt", e |-> e], Fight(s, e, 1))
(* another element, whose callback fails: what is placed afterwards is as before *)
Failing == \E p \in s.at : Do([n |-> "failing", p |-> p], s)
Touch == \E k \in Bursts : Do([n |-> "touch", k |-> k], CheckAll(s))
Wait == \E ms \in Steps : Do([n |-> "wait", ms |-> ms], Advance(s, ms))
Cancel == ~s.off /\ Do([n |-> "cancel"], [s EXCEPT !.off = TRUE])
Next == Insert \/ WaitFor \/ Put \/ Drop \/ PutSib \/ DropSib \/ TakeOut \/ Adopt \/ Failing \/ Touch \/ Wait \/ Cancel
Spec == Init /\ [][Next]_vars

(* ---- the property ---- *)
(* an element asked for is in the page whenever it can be, save within the second *)
(* in which it was placed Limit times                                             *)
Placed == ~s.off => \A e \in Elems : s.on[e] /\ Placeable(s, e) /\ Len(s.ages[e]) < Limit => s.in[e] # "-"
Bounded == \A e \in Elems : Len(s.ages[e]) <= Limit
ThenQuiet == [][s.off => s'.calls = s.calls /\ s'.seen = s.seen]_vars
DoneOnce == \A e \in Elems : s.done[e] <=> s.calls[e] > 0
================================================================================
