-------------------------- MODULE ConsentImpressions ---------------------------
(* Impressions on their way to analytics while the visitor has not decided      *)
(* about consent: held, then delivered in order or discarded.                   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Ints, Cap, Bursts, Budgets, Steps, Retry, Acts
VARIABLES s, act, obs
vars == <<s, act, obs>>
view == <<s>>
Inf == 100000
Own == 77
Pick(S) == S
Max2(a, b) == IF a > b THEN a ELSE b
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
(* buf: what is held, oldest first; poll: ms until it is offered again;          *)
(* budget: how many the analytics will accept; mode: how it refuses the next;    *)
(* revoke: consent is taken back while the revoke-th from now is being sent;     *)
(* spoil: it is while the next that is refused is                                 *)
NewInt == [buf |-> <<>>, poll |-> 0, budget |-> Inf, mode |-> "refuse", revoke |-> 0, spoil |-> FALSE]
Init0 == [now |-> 0, required |-> FALSE, status |-> "pending", e |-> 0, ord |-> <<>>, int |-> [i \in Ints |-> NewInt]]
Withheld(st) == st.required /\ st.status # "granted"
Pending(st) == st.required /\ st.status = "pending"
Discard(st) == [st EXCEPT !.int = [i \in Ints |-> [@[i] EXCEPT !.buf = <<>>, !.poll = 0]]]
Deny(st) == IF st.status = "denied" THEN st ELSE Discard([st EXCEPT !.status = "denied"])
Min2(a, b) == IF a < b THEN a ELSE b
(* n impressions offered to the analytics of i one after another: how many are   *)
(* accepted, whether the next is refused, and the state after                    *)
Offered(st, i, n) ==
  LET I == st.int[i]
      rev == I.revoke > 0 /\ I.revoke <= Min2(I.budget, n)
      m == IF rev THEN I.revoke ELSE Min2(I.budget, n)
      st1 == [st EXCEPT !.int[i].budget = IF @ = Inf THEN Inf ELSE @ - m, !.int[i].revoke = Max2(0, @ - m)]
      spoilt == ~rev /\ I.spoil /\ m < n IN
  [m |-> m, rev |-> rev, spoilt |-> spoilt, st |-> IF rev THEN Deny(st1) ELSE IF spoilt THEN Deny([st1 EXCEPT !.int[i].spoil = FALSE]) ELSE st1]
Out(i, ev, ans) == [i |-> i, e |-> ev.e, t |-> ev.t, ans |-> ans]
Drain(st, i, sent) ==
  LET q == st.int[i].buf IN
  IF Withheld(st) \/ q = <<>> THEN [st |-> [st EXCEPT !.int[i].poll = 0], sent |-> sent]
  ELSE LET r == Offered(st, i, Len(q))
           out == [j \in 1..r.m |-> Out(i, q[j], "ok")] IN
       IF r.spoilt THEN [st |-> [r.st EXCEPT !.int[i].poll = 0], sent |-> sent \o out \o <<Out(i, q[r.m + 1], st.int[i].mode)>>] ELSE
       IF r.rev THEN [st |-> [r.st EXCEPT !.int[i].poll = 0], sent |-> sent \o out]
       ELSE IF r.m = Len(q) THEN [st |-> [r.st EXCEPT !.int[i].poll = 0, !.int[i].buf = <<>>], sent |-> sent \o out]
       ELSE [st |-> [r.st EXCEPT !.int[i].poll = IF @ = 0 THEN Retry ELSE @, !.int[i].buf = SubSeq(q, r.m + 1, Len(q))],
             sent |-> sent \o out \o <<Out(i, q[r.m + 1], st.int[i].mode)>>]
RECURSIVE DrainAll(_, _, _)
DrainAll(st, is, sent) == IF is = <<>> THEN [st |-> st, sent |-> sent] ELSE LET r == Drain(st, Head(is), sent) IN DrainAll(r.st, Tail(is), r.sent)
Do(a, st, sent, ret) == /\ a.n \in Acts
                        /\ s' = st
                        /\ act' = a
                        /\ obs' = [sent |-> sent, ret |-> ret]

Init == s = Init0 /\ act = [n |-> "init"] /\ obs = [sent |-> <<>>, ret |-> <<>>]
Require == ~s.required /\ Do([n |-> "require"], [s EXCEPT !.required = TRUE], <<>>, <<>>)
(* k impressions of i; once revoked, the rest of them are dropped *)
TrackN(st, i, k, own) ==
  LET evs == [j \in 1..k |-> [e |-> st.e + j - 1, t |-> IF own THEN Own ELSE st.now]]
      st1 == [st EXCEPT !.e = @ + k]
      all(ans) == [j \in 1..k |-> ans] IN
  IF ~Withheld(st) THEN
    LET r == Offered(st1, i, k)
        off == IF r.rev THEN r.m ELSE IF r.spoilt THEN r.m + 1 ELSE k
        ans(j) == IF j <= r.m THEN "ok" ELSE st.int[i].mode IN
    [st |-> r.st,
     sent |-> [j \in 1..off |-> Out(i, [e |-> evs[j].e, t |-> IF own THEN Own ELSE -1], ans(j))],
     ret |-> [j \in 1..k |-> IF j <= off THEN ans(j) ELSE "ok"]]
  ELSE IF ~Pending(st) THEN [st |-> st1, sent |-> <<>>, ret |-> all("ok")]
  ELSE LET held == st.int[i].buf \o evs IN
       [st |-> [st1 EXCEPT !.int[i].buf = IF Len(held) > Cap THEN SubSeq(held, Len(held) - Cap + 1, Len(held)) ELSE held,
                           !.ord = IF \E j \in DOMAIN @ : @[j] = i THEN @ ELSE Append(@, i)],
        sent |-> <<>>, ret |-> all("ok")]
Track(i, k, own) == (s.required \/ (s.int[i].revoke = 0 /\ ~s.int[i].spoil)) /\ LET r == TrackN(s, i, k, own) IN Do([n |-> "track", i |-> i, k |-> k, own |-> own], r.st, r.sent, r.ret)
Decide(v) ==
  /\ s.status # v
  /\ LET r == IF v = "denied" THEN [st |-> Deny(s), sent |-> <<>>] ELSE DrainAll([s EXCEPT !.status = "granted"], s.ord, <<>>) IN
     Do([n |-> "decide", v |-> v], r.st, r.sent, <<>>)
Answer(i, b, m) == Do([n |-> "answer", i |-> i, budget |-> b, mode |-> m], [s EXCEPT !.int[i].budget = b, !.int[i].mode = m], <<>>, <<>>)
Revoke(i, k) == s.int[i].revoke = 0 /\ Do([n |-> "revoke", i |-> i, k |-> k], [s EXCEPT !.int[i].revoke = k], <<>>, <<>>)
Spoil(i) == ~s.int[i].spoil /\ Do([n |-> "spoil", i |-> i], [s EXCEPT !.int[i].spoil = TRUE], <<>>, <<>>)
Lefts == {s.int[i].poll : i \in Ints} \ {0}
Shift(d) == [s EXCEPT !.now = @ + d, !.int = [i \in Ints |-> [@[i] EXCEPT !.poll = IF @ = 0 THEN 0 ELSE @ - d]]]
RECURSIVE Due(_, _, _, _)
(* the retries that are due now, each unless what came before put an end to it *)
Due(st, is, dueSet, sent) ==
  IF is = <<>> THEN [st |-> st, sent |-> sent]
  ELSE LET i == Head(is) IN
       IF i \in dueSet /\ st.int[i].poll = 1000000
       THEN LET r == Drain(st, i, sent) IN
            Due(IF r.st.int[i].poll = 1000000 THEN [r.st EXCEPT !.int[i].poll = Retry] ELSE r.st, Tail(is), dueSet, r.sent)
       ELSE Due(st, Tail(is), dueSet, sent)
Wait(d) ==
  /\ \A x \in Lefts : d <= x
  /\ LET due == {i \in Ints : s.int[i].poll = d}
         st0 == Shift(d)
         st == [st0 EXCEPT !.int = [i \in Ints |-> IF i \in due THEN [@[i] EXCEPT !.poll = 1000000] ELSE @[i]]]
         r == Due(st, s.ord, due, <<>>) IN
     Do([n |-> "wait", ms |-> d], r.st, r.sent, <<>>)
Next ==
  \/ Require
  \/ \E i \in Pick(Ints), k \in Pick(Bursts), own \in Pick({TRUE, FALSE}) : Track(i, k, own)
  \/ \E v \in Pick({"granted", "denied"}) : Decide(v)
  \/ \E i \in Pick(Ints), b \in Pick(Budgets), m \in Pick({"refuse", "throw"}) : Answer(i, b, m)
  \/ \E i \in Pick(Ints), k \in Pick(1..2) : Revoke(i, k)
  \/ \E i \in Pick(Ints) : Spoil(i)
  \/ \E d \in Pick(Steps) : Wait(d)
  \/ Lefts # {} /\ Wait(Min(Lefts))
Spec == Init /\ [][Next]_vars
Bounded == \A i \in Ints : Len(s.int[i].buf) <= Cap
NothingHeldAfterDenial == s.status = "denied" => \A i \in Ints : s.int[i].buf = <<>> /\ s.int[i].poll = 0
HeldIsRetried == (~Withheld(s)) => \A i \in Ints : s.int[i].buf = <<>> \/ s.int[i].poll > 0
InOrder == \A i \in Ints : \A j \in 1..Len(s.int[i].buf) - 1 : s.int[i].buf[j].e < s.int[i].buf[j + 1].e
(* while consent is withheld (and not given by this very step) nothing goes out *)
SilentWithheld == [][(Withheld(s) /\ act'.n # "decide") => obs'.sent = <<>>]_vars
(* what leaves the held ones was accepted, discarded by a denial, or the oldest over the bound *)
AcceptedOf(i) == {obs'.sent[j].e : j \in {k \in DOMAIN obs'.sent : obs'.sent[k].i = i /\ obs'.sent[k].ans = "ok"}}
NothingLost == [][s'.status = "denied" \/ act'.n = "track" \/
  \A i \in Ints : {s.int[i].buf[j].e : j \in DOMAIN s.int[i].buf} \ {s'.int[i].buf[j].e : j \in DOMAIN s'.int[i].buf} = AcceptedOf(i)]_vars
===============================================================================
