------------------------------ MODULE SharedQueue ------------------------------
(* Several pages (tabs) of one instance share the stored queue of undelivered   *)
(* exposures: nothing one of them queued is lost to, or delivered twice by,     *)
(* another.                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Tabs, Cap, Bursts, Budgets, Steps, Acts, Webs
Inf == 100000
Pick(S) == S
Min2(a, b) == IF a < b THEN a ELSE b
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
VARIABLES s, act, obs
vars == <<s, act, obs>>
view == <<s>>
NewTab == [trk |-> FALSE, cur |-> 0, budget |-> Inf]
Init0 == [disk |-> <<>>, tab |-> [t \in Tabs |-> NewTab], web |-> 0]
R(st, off) == [st |-> st, off |-> off]
(* what tab t does with the queue: offer from the front until refused *)
Flush(st, t) ==
  LET T == st.tab[t] q == st.disk IN
  IF ~T.trk \/ q = <<>> THEN R([st EXCEPT !.disk = q], <<>>)
  ELSE LET m == Min2(T.budget, Len(q))
           shown == Min2(m + 1, Len(q)) IN
       R([st EXCEPT !.disk = SubSeq(q, m + 1, Len(q)),
                    !.tab[t] = [T EXCEPT !.budget = IF @ = Inf THEN @ ELSE @ - m, !.cur = IF m = Len(q) THEN 0 ELSE @]],
         [j \in 1..shown |-> [by |-> t, ev |-> q[j], ok |-> j <= m]])
Trimmed(r) == R([r.st EXCEPT !.disk = IF Len(@) > Cap THEN SubSeq(@, Len(@) - Cap + 1, Len(@)) ELSE @], r.off)
RECURSIVE Push(_, _, _, _)
Push(st, t, k, off) ==
  IF k = 0 THEN R(st, off)
  ELSE LET r == Trimmed(Flush([st EXCEPT !.disk = Append(@, st.web), !.web = (@ + 1) % Webs], t)) IN Push(r.st, t, k - 1, off \o r.off)
O(r) == [off |-> r.off, disk |-> r.st.disk]
Do(a, r) == a.n \in Acts /\ s' = r.st /\ act' = a /\ obs' = O(r)
Init == s = Init0 /\ act = [n |-> "init"] /\ obs = O(R(s, <<>>))
Web(t, k) == Do([n |-> "web", t |-> t, k |-> k], Push(s, t, k, <<>>))
NoTie == \A t \in Tabs : s.tab[t].cur # 1000
Attach(t) == /\ ~s.tab[t].trk /\ NoTie
             /\ Do([n |-> "attach", t |-> t], Trimmed(Flush([s EXCEPT !.tab[t].trk = TRUE, !.tab[t].cur = 1000], t)))
Answer(t, b) == s.tab[t].budget # b /\ Do([n |-> "answer", t |-> t, budget |-> b], R([s EXCEPT !.tab[t].budget = b], <<>>))
Reload(t) == Do([n |-> "reload", t |-> t], R([s EXCEPT !.tab[t] = NewTab], <<>>))
Lefts == {s.tab[t].cur : t \in Tabs} \ {0}
Shift(d) == [s EXCEPT !.tab = [t \in Tabs |-> [@[t] EXCEPT !.cur = IF @ = 0 THEN 0 ELSE @ - d]]]
Wait(d) == (\A x \in Lefts : d < x) /\ Do([n |-> "wait", ms |-> d], R(Shift(d), <<>>))
Tick == /\ Lefts # {}
        /\ LET d == Min(Lefts)
               t == CHOOSE x \in Tabs : s.tab[x].cur = d IN
           Do([n |-> "wait", ms |-> d], Trimmed(Flush([Shift(d) EXCEPT !.tab[t].cur = 1000], t)))
Next ==
  \/ \E t \in Pick(Tabs), k \in Pick(Bursts) : Web(t, k)
  \/ \E t \in Pick(Tabs) : Attach(t)
  \/ \E t \in Pick(Tabs), b \in Pick(Budgets) : Answer(t, b)
  \/ \E z \in Pick(1..4), t \in Pick(Tabs) : z = 1 /\ Reload(t)
  \/ \E d \in Pick(Steps) : Wait(d)
  \/ Tick
Spec == Init /\ [][Next]_vars
Bounded == Len(s.disk) <= Cap
(* only an accepted offer, or the bound, takes an event out; nothing puts one in twice *)
Accepted == LET a == SelectSeq(obs'.off, LAMBDA o : o.ok) IN [j \in DOMAIN a |-> a[j].ev]
NothingLost == [][(act'.n # "web") => Accepted \o s'.disk = s.disk]_vars
OnlyAttachedTake == [][\A j \in DOMAIN obs'.off : s'.tab[obs'.off[j].by].trk]_vars
===============================================================================
