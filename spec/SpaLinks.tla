------------------------------- MODULE SpaLinks -------------------------------
(* Clicks on links of a page with a client-side router, some of whose addresses  *)
(* a variant has changed.                                                          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Links, Kinds, Targets, Hrefs, Mods, Acts
VARIABLES s, act, obs
vars == <<s, act, obs>>
view == <<s>>
Pick(S) == S

(* Hrefs: [id, how: same, external, empty]                                         *)
(* kind: what the framework knows of the link: router, other, bare (no handler),   *)
(*   plain (not of the framework)                                                  *)
(* to: the address a variant gave, "-" none                                        *)
Start == [on |-> FALSE, kind |-> [l \in Links |-> "plain"], target |-> [l \in Links |-> "-"], to |-> [l \in Links |-> "-"], next |-> FALSE]
How(id) == (CHOOSE h \in Hrefs : h.id = id).how
Quiet == [prevented |-> FALSE, went |-> "-", by |-> "-", pops |-> 0]

(* mod: none, or what makes the browser open another window *)
Ours(st, l, mod) == st.on /\ st.to[l] # "-" /\ How(st.to[l]) # "empty" /\ st.kind[l] = "router" /\ st.target[l] \in {"-", "_self", "empty"} /\ mod = "none"
Clicked(st, l, mod) ==
  IF ~Ours(st, l, mod) THEN Quiet
  ELSE IF How(st.to[l]) = "external" THEN [Quiet EXCEPT !.prevented = TRUE, !.went = st.to[l], !.by = "page"]
  ELSE IF st.next THEN [Quiet EXCEPT !.prevented = TRUE, !.went = st.to[l], !.by = "next"]
  ELSE [prevented |-> TRUE, went |-> st.to[l], by |-> "history", pops |-> 1]

Do(a, st, o) == a.n \in Acts /\ s' = st /\ act' = a /\ obs' = o
Init == s = Start /\ act = [n |-> "init"] /\ obs = <<>>
Install == Do([n |-> "install"], [s EXCEPT !.on = TRUE], Quiet)
Make == \E l \in Links, k \in Kinds, t \in Targets : (s.kind[l] # k \/ s.target[l] # t) /\ Do([n |-> "make", l |-> l, k |-> k, t |-> t], [s EXCEPT !.kind[l] = k, !.target[l] = t], Quiet)
Mutate == \E l \in Links, h \in Hrefs : s.to[l] # h.id /\ Do([n |-> "mutate", l |-> l, to |-> h.id], [s EXCEPT !.to[l] = h.id], Quiet)
Revert == \E l \in Links, how \in {"record", "list"} : s.to[l] # "-" /\ Do([n |-> "revert", l |-> l, how |-> how], [s EXCEPT !.to[l] = "-"], Quiet)
Router == Do([n |-> "router", next |-> ~s.next], [s EXCEPT !.next = ~@], Quiet)
Click == \E l \in Links, m \in Mods, where \in {"link", "child", "deep"} : Do([n |-> "click", l |-> l, mod |-> m, where |-> where], s, Clicked(s, l, m))
Beside == Do([n |-> "beside"], s, Quiet)
Next == Install \/ Make \/ Mutate \/ Revert \/ Router \/ Click \/ Beside
Spec == Init /\ [][Next]_vars

(* ---- the property ---- *)
(* a click is taken from the browser only to go where the variant says, once *)
TakenToGo == [][obs'.prevented <=> obs'.by # "-"]_vars
WhereItSays == [][obs'.went # "-" => obs'.went = s.to[act'.l]]_vars
UnchangedLinksAlone == [][act'.n = "click" /\ s.to[act'.l] = "-" => obs' = Quiet]_vars
OtherWindows == [][act'.n = "click" /\ (act'.mod # "none" \/ s.target[act'.l] = "_blank") => obs' = Quiet]_vars
================================================================================
