------------------------------- MODULE Session ---------------------------------
(* The behavioural session: kept in a cookie shared by the tabs and subdomains   *)
(* of a site, in memory where the cookie may not or cannot be used.              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Tabs, Modes, Limit, Steps, Requireds, Foreign, Acts
VARIABLES s, act, obs
vars == <<s, act, obs>>
view == <<s>>
Pick(S) == S
None == [is |-> "none", id |-> 0, start |-> 0, last |-> 0]
Bad == [None EXCEPT !.is = "bad"]
(* usable: whether the cookie was found to work: unknown, yes or no               *)
Closed == [open |-> FALSE, mode |-> "ok", required |-> FALSE, status |-> "pending", mem |-> None, usable |-> "?", armed |-> FALSE, spent |-> FALSE]
Init0 == [now |-> 0, n |-> 0, cookie |-> None, seen |-> <<>>, tab |-> [t \in Tabs |-> Closed]]
Withheld(st, t) == st.tab[t].required /\ st.tab[t].status # "granted"
Pending(st, t) == st.tab[t].required /\ st.tab[t].status = "pending"
(* what a page finds in the cookie; older ones carry no start of the session *)
Found(st, t) == LET c == st.cookie IN
  IF Withheld(st, t) \/ st.tab[t].usable = "no" \/ st.tab[t].mode = "blocked" \/ c.is \in {"none", "bad"} THEN None
  ELSE IF c.is = "old" THEN [c EXCEPT !.is = "ses", !.start = c.last] ELSE c
Read(st, t) == IF Found(st, t).is # "none" THEN Found(st, t) ELSE st.tab[t].mem
Write(st, t, v) ==
  LET st1 == [st EXCEPT !.tab[t].mem = v] IN
  IF Withheld(st, t) THEN [st1 EXCEPT !.tab[t].armed = @ \/ Pending(st, t)]
  ELSE IF st.tab[t].usable = "no" THEN st1
  ELSE IF st.tab[t].mode = "ok" THEN [st1 EXCEPT !.cookie = v, !.tab[t].usable = "yes"]
  ELSE [st1 EXCEPT !.tab[t].usable = IF st.tab[t].mode = "nowrite" /\ st.cookie = v THEN "yes" ELSE "no"]
Alive(st, v) == v.is = "ses" /\ st.now - v.last <= Limit
Fresh(st) == [is |-> "ses", id |-> st.n, start |-> st.now, last |-> st.now]
New(st, t) == [Write(st, t, Fresh(st)) EXCEPT !.n = @ + 1]
Resolve(st, t) == IF Alive(st, Read(st, t)) THEN [st |-> st, v |-> Read(st, t)]
                  ELSE [st |-> New(st, t), v |-> Fresh(st)]
Active(st, t) == IF Alive(st, Read(st, t)) THEN Write(st, t, [Read(st, t) EXCEPT !.last = st.now]) ELSE New(st, t)
(* sessions are told apart by the order in which they come to light *)
Known(st, v) == IF v.is \notin {"ses", "old"} \/ \E i \in DOMAIN st.seen : st.seen[i] = v.id THEN st ELSE [st EXCEPT !.seen = Append(@, v.id)]
Ord(st, v) == CHOOSE i \in DOMAIN st.seen : st.seen[i] = v.id
Show(st, v) == IF v.is \in {"none", "bad"} THEN v.is
               ELSE [id |-> Ord(st, v), start |-> IF v.is = "old" THEN "~" ELSE v.start, last |-> v.last]
Do(a, st, v) ==
  LET st2 == Known(Known(st, v), st.cookie) IN
  /\ a.n \in Acts
  /\ s' = st2
  /\ act' = a
  /\ obs' = [got |-> IF v.is = "none" THEN "~" ELSE [id |-> Ord(st2, v), start |-> v.start], cookie |-> Show(st2, st2.cookie)]
Init == s = Init0 /\ act = [n |-> "init"] /\ obs = [got |-> "~", cookie |-> "none"]
Load(t, m, r) == Do([n |-> "load", t |-> t, mode |-> m, required |-> r], [s EXCEPT !.tab[t] = [Closed EXCEPT !.open = TRUE, !.mode = m, !.required = r]], None)
Ask(t) == LET r == Resolve(s, t) IN Do([n |-> "ask", t |-> t], r.st, r.v)
Activity(t) == Do([n |-> "activity", t |-> t], Active(s, t), None)
Clear(t) == Do([n |-> "clear", t |-> t],
  [s EXCEPT !.tab[t].mem = None, !.cookie = IF Pending(s, t) \/ s.tab[t].mode # "ok" THEN @ ELSE None], None)
(* the first decision settles what was held while undecided *)
Decide(t, v) ==
  /\ s.tab[t].required /\ s.tab[t].status # v
  /\ LET st == [s EXCEPT !.tab[t].status = v]
         flush == st.tab[t].armed /\ ~st.tab[t].spent
         st1 == IF flush THEN [st EXCEPT !.tab[t].spent = TRUE] ELSE st IN
     Do([n |-> "decide", t |-> t, v |-> v],
        IF flush /\ v = "granted" /\ st.tab[t].mem.is = "ses" THEN Write(st1, t, st.tab[t].mem) ELSE st1, None)
(* another version of the tag, or anything else, has written the cookie *)
Elsewhere(k, ago) ==
  LET c == CASE k = "bad" -> Bad [] k = "gone" -> None
             [] k = "old" -> [is |-> "old", id |-> s.n, start |-> 0, last |-> s.now - ago]
             [] k = "ses" -> [is |-> "ses", id |-> s.n, start |-> s.now - ago - 5, last |-> s.now - ago] IN
  Do([n |-> "elsewhere", k |-> k, ago |-> ago], [s EXCEPT !.cookie = c, !.n = @ + 1], None)
Wait(d) == Do([n |-> "wait", ms |-> d], [s EXCEPT !.now = @ + d], None)
Open == {t \in Tabs : s.tab[t].open}
Next ==
  \/ \E t \in Pick(Tabs), m \in Pick(Modes), r \in Pick(Requireds) : Load(t, m, r)
  \/ \E t \in Pick(Open) : Ask(t)
  \/ \E t \in Pick(Open) : Activity(t)
  \/ \E t \in Pick(Open), z \in Pick(1..3) : z = 1 /\ Clear(t)
  \/ \E t \in Pick(Open), v \in Pick({"granted", "denied"}) : Decide(t, v)
  \/ \E k \in Pick(Foreign), ago \in Pick({0, 7, Limit, Limit + 1}), z \in Pick(1..3) : z = 1 /\ Elsewhere(k, ago)
  \/ \E d \in Pick(Steps) : Wait(d)
Spec == Init /\ [][Next]_vars
(* activity within the limit of the previous one carries the session on; later   *)
(* activity begins a new one                                                     *)
Continues == [][act'.n = "activity" =>
  LET t == act'.t
      before == Read(s, t) IN
  IF before.is = "ses" /\ s.now - before.last <= Limit THEN Read(s', t).id = before.id /\ Read(s', t).start = before.start /\ Read(s', t).last = s.now
  ELSE Read(s', t) = [is |-> "ses", id |-> s.n, start |-> s.now, last |-> s.now]]_vars
AskingExtendsNothing == [][act'.n = "ask" => LET t == act'.t IN (Read(s', t) = Read(s, t) \/ ~Alive(s, Read(s, t))) /\ Read(s', t).id = s'.seen[obs'.got.id]]_vars
(* without consent the cookie is neither read nor written *)
ConsentKept == [][(act'.n \in {"ask", "activity"} /\ Withheld(s, act'.t)) => s'.cookie = s.cookie]_vars
(* two tabs which may use the cookie are in the same session *)
Shared == \A t, u \in Open : (s.tab[t].usable = "yes" /\ s.tab[u].usable = "yes" /\ s.tab[t].mode = "ok" /\ s.tab[u].mode = "ok" /\ ~Withheld(s, t) /\ ~Withheld(s, u) /\ s.cookie.is = "ses") => Read(s, t) = Read(s, u)
===============================================================================
