-------------------------------- MODULE Preview --------------------------------
(* Previews of experiments: a link names variants, and the tab shows them from     *)
(* then on instead of the visitor's own, until another link ends it.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Flags, Links, Paths, Names, Damages, Acts
VARIABLES s, act, obs
vars == <<s, act, obs>>
view == <<s>>
Pick(S) == S
(* Flags: sequence of [key, mode, own, shows, at]: the variant the visitor has, those *)
(* which change the page, all there are being off, control, on and t; its pages, being *)
(* [by, at]: the name of the manual trigger it waits for ("" is none) and its paths.   *)
(* Links: sequence of [on, keep, ask]: whether it is a       *)
(* preview link, parameters left alone, and pairs of flag and variant ("" is no value)  *)
All == {"off", "control", "on", "t"}
Keys == {Flags[i].key : i \in DOMAIN Flags}
F(k) == Flags[CHOOSE i \in DOMAIN Flags : Flags[i].key = k]
Remote == {Flags[i].key : i \in {j \in DOMAIN Flags : Flags[j].mode = "remote"}}
Asked(l) == {Links[l].ask[i] : i \in {j \in DOMAIN Links[l].ask : Links[l].ask[j][2] # ""}}
Named(pre) == {p[1] : p \in pre}
Of(pre, k) == (CHOOSE p \in pre : p[1] = k)[2]
None == {}
(* pre: what is previewed; saved: what the tab remembers; due: a notice is on its way  *)
Init0 == [up |-> FALSE, path |-> "", pre |-> None, saved |-> None, due |-> FALSE, notice |-> FALSE, fired |-> None, counted |-> None]
Active(st) == {w \in UNION {{<<k, i>> : i \in DOMAIN F(k).pages} : k \in Keys} :
  LET p == F(w[1]).pages[w[2]] IN (p.by = "" \/ p.by \in st.fired) /\ \E i \in DOMAIN p.at : p.at[i] = st.path}
Runs(st, k) == \E w \in Active(st) : w[1] = k
Manual(k) == \E i \in DOMAIN F(k).pages : F(k).pages[i].by # ""
Shows(st, k) == IF k \in Named(st.pre) THEN Of(st.pre, k) ELSE F(k).own
OnPage(st) == {<<k, Shows(st, k)>> : k \in {j \in Keys : Runs(st, j) /\ \E i \in DOMAIN F(j).shows : F(j).shows[i] = Shows(st, j)}}
(* a notice goes with the variants previewed of experiments which exist               *)
Noticed(pre) == \E p \in pre : p[1] \in Keys /\ p[2] \in All
Opened(st, path, pre, saved) == [st EXCEPT !.up = TRUE, !.path = path, !.pre = pre, !.saved = saved, !.due = Noticed(pre), !.notice = FALSE, !.fired = None, !.counted = None]

(* impressions: of what is shown, be it a preview or not, once on each page               *)
Counts(st, k) == Runs(st, k) /\ Shows(st, k) \in All /\ (k \in Named(st.pre) \/ Shows(st, k) \in {"off", "control"} \/ \E i \in DOMAIN F(k).shows : F(k).shows[i] = Shows(st, k))
Due(st) == {k \in Keys \ st.counted : Counts(st, k)}
Count(st) == [st EXCEPT !.counted = @ \cup Due(st)]
Shown(st, calls, left) == [imp_set |-> {<<k, Shows(st, k)>> : k \in Due(st)}, on_set |-> OnPage(st), previewing |-> st.pre # None, saved_set |-> st.saved, notices |-> IF st.notice THEN 1 ELSE 0, rows_set |-> IF st.notice THEN st.pre ELSE None,
                           configs |-> IF calls THEN IF st.pre # None \/ left = "ended" THEN 1 ELSE 0 ELSE 0,
                           flags |-> IF calls /\ ~(Remote \subseteq Named(st.pre)) THEN 1 ELSE 0]
Do(a, st, o) == a.n \in Acts /\ s' = (IF st.up THEN Count(st) ELSE st) /\ act' = a /\ obs' = o
Init == s = Init0 /\ act = [n |-> "init"] /\ obs = <<>>
(* a link: previews what it names and nothing else; its parameters leave the address   *)
Follow == \E l \in Pick(DOMAIN Links), p \in Pick(Paths) :
  LET k == Links[l]
      pre == IF k.on = "true" THEN Asked(l) ELSE s.saved
      t == Opened(s, p, pre, pre) IN
  Do([n |-> "follow", link |-> k, path |-> p], t,
     [Shown(t, TRUE, IF k.on = "true" THEN "ended" ELSE "") EXCEPT !.rows_set = None] @@ [left_set |-> IF k.on = "true" THEN {k.keep[i] : i \in DOMAIN k.keep} \cup {k.ask[i] : i \in {j \in DOMAIN k.ask : k.ask[j][2] = ""}}
                                                               ELSE {k.keep[i] : i \in DOMAIN k.keep} \cup {k.ask[i] : i \in DOMAIN k.ask} \cup (IF k.on = "" THEN None ELSE {<<"PREVIEW", k.on>>})])
Nav == s.up /\ \E p \in Pick(Paths) : p # s.path /\ LET t == [s EXCEPT !.path = p, !.fired = None, !.counted = None, !.due = @ \/ Noticed(s.pre)] IN Do([n |-> "nav", path |-> p], t, Shown(t, FALSE, ""))
(* the page says that something named has happened, or is no longer so, which may be   *)
(* what an experiment waits for                                                        *)
Toggle == s.up /\ \E m \in Pick(Names), on \in BOOLEAN :
  LET u == [s EXCEPT !.fired = IF on THEN @ \cup {m} ELSE @ \ {m}]
      t == [u EXCEPT !.due = @ \/ (Active(u) # Active(s) /\ Noticed({p \in s.pre : p[1] \in Keys /\ Manual(p[1])}))] IN
  Do([n |-> "toggle", name |-> m, on |-> on], t, Shown(t, FALSE, ""))
Wait == s.up /\ LET t == [s EXCEPT !.notice = @ \/ s.due, !.due = FALSE] IN Do([n |-> "wait"], t, Shown(t, FALSE, ""))
Dismiss == s.up /\ s.notice /\ LET t == [s EXCEPT !.notice = FALSE] IN Do([n |-> "dismiss"], t, Shown(t, FALSE, ""))
(* what the tab remembers is lost or damaged; nothing is previewed from the next page on *)
Lose == s.up /\ \E how \in Pick(Damages) : LET t == [s EXCEPT !.saved = None] IN Do([n |-> "lose", how |-> how], t, [Shown(t, FALSE, "") EXCEPT !.saved_set = {<<"*", how>>}])
Tab == s.up /\ LET t == [Init0 EXCEPT !.path = s.path] IN Do([n |-> "tab"], t, <<>>)
Next == Follow \/ Nav \/ Toggle \/ Wait \/ Dismiss \/ Lose \/ Tab
Spec == Init /\ [][Next]_vars

(* ---- what this gives ---- *)
Exactly == [][s'.up => \A k \in Keys : Runs(s', k) => \A v \in All : <<k, v>> \in obs'.on_set => v = (IF k \in Named(s'.pre) THEN Of(s'.pre, k) ELSE F(k).own)]_vars
Lasts == [][act'.n \in {"nav", "toggle", "wait", "dismiss"} => s'.pre = s.pre /\ s'.saved = s.saved]_vars
Remembered == [][act'.n = "follow" => s'.saved = s'.pre]_vars
OneAtATime == s.notice => s.pre # None
================================================================================
