---------------------------- MODULE ConsentDecision ----------------------------
(* The visitor's consent decision for one page: who may decide, what wins, and  *)
(* who hears of it.                                                             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxListeners, Behaviours, Acts
VARIABLES s, act, obs
vars == <<s, act, obs>>
view == <<s>>
Pick(S) == S
Statuses == {"pending", "granted", "denied"}
(* ls: the listeners in registration order; once: waits for one decision        *)
(* b: what a listener does when told: "ok", "throw", "grant", "deny" (it sets    *)
(* the status itself), "off" (it unsubscribes itself)                            *)
Init0 == [required |-> FALSE, status |-> "pending", explicit |-> FALSE, ls |-> <<>>, n |-> 0]
Has(st, id) == \E j \in DOMAIN st.ls : st.ls[j].id = id
Drop(st, id) == [st EXCEPT !.ls = SelectSeq(@, LAMBDA l : l.id # id)]
RECURSIVE Apply(_, _), Notify(_, _, _, _, _)
(* R: the state after, everything told meanwhile, whether the status changed *)
Apply(st, to) ==
  IF to = st.status \/ to = "pending" THEN [st |-> st, told |-> <<>>, ret |-> FALSE]
  ELSE LET r == Notify([st EXCEPT !.status = to], st.ls, 1, to, st.status) IN [st |-> r.st, told |-> r.told, ret |-> TRUE]
(* all that were registered when the change came and still are, in order; what *)
(* a listener sets is told to all first                                        *)
Notify(st, order, i, to, from) ==
  IF i > Len(order) THEN [st |-> st, told |-> <<>>]
  ELSE LET l == order[i] IN
    IF ~Has(st, l.id) THEN Notify(st, order, i + 1, to, from)
    ELSE LET st1 == IF l.once \/ l.b = "off" THEN Drop(st, l.id) ELSE st
             inner == CASE l.b = "grant" -> Apply([st1 EXCEPT !.explicit = TRUE], "granted")
                        [] l.b = "deny" -> Apply([st1 EXCEPT !.explicit = TRUE], "denied")
                        [] OTHER -> [st |-> st1, told |-> <<>>]
             rest == Notify(inner.st, order, i + 1, to, from) IN
         [st |-> rest.st, told |-> <<[id |-> l.id, to |-> to, from |-> IF l.once THEN "~" ELSE from, sees |-> st.status]>> \o inner.told \o rest.told]
Pending(st) == st.required /\ st.status = "pending"
Withheld(st) == st.required /\ st.status # "granted"
O(st, told, ret) == [status |-> st.status, explicit |-> st.explicit, pending |-> Pending(st), withheld |-> Withheld(st), told |-> told, ret |-> ret]
Do(a, st, told, ret) == a.n \in Acts /\ s' = st /\ act' = a /\ obs' = O(st, told, ret)

Init == s = Init0 /\ act = [n |-> "init"] /\ obs = O(s, <<>>, FALSE)
Require(v) == s.required # v /\ Do([n |-> "require", v |-> v], [s EXCEPT !.required = v], <<>>, FALSE)
Set(v) == LET r == Apply([s EXCEPT !.explicit = TRUE], v) IN Do([n |-> "set", v |-> v], r.st, r.told, r.ret)
Seed(v) == LET r == IF s.explicit THEN [st |-> s, told |-> <<>>, ret |-> FALSE] ELSE Apply(s, v) IN Do([n |-> "seed", v |-> v], r.st, r.told, r.ret)
(* two listeners that each set the other status would argue for ever *)
Peaceful(b) == b \in {"ok", "throw", "off"} \/ \A j \in DOMAIN s.ls : s.ls[j].b \notin {"grant", "deny"}
Listen(once, b) ==
  /\ Len(s.ls) < MaxListeners /\ (once => b # "off") /\ (b = "off" => ~once)
  /\ Peaceful(b)
  /\ Do([n |-> "listen", once |-> once, b |-> b], [s EXCEPT !.ls = Append(@, [id |-> s.n, once |-> once, b |-> b]), !.n = (@ + 1) % 8], <<>>, FALSE)
(* ids are reused only when free *)
FreeId == ~Has(s, s.n)
Unlisten(id) == (\E j \in DOMAIN s.ls : s.ls[j].id = id /\ ~s.ls[j].once) /\ Do([n |-> "unlisten", id |-> id], Drop(s, id), <<>>, FALSE)
Next ==
  \/ \E v \in Pick({TRUE, FALSE}) : Require(v)
  \/ \E v \in Pick(Statuses) : Set(v) \/ Seed(v)
  \/ \E o \in Pick({TRUE, FALSE}), b \in Pick(Behaviours) : FreeId /\ Listen(o, b)
  \/ \E id \in Pick(0..7) : Unlisten(id)
Spec == Init /\ [][Next]_vars
(* once decided never undecided *)
Final == [][s.status # "pending" => s'.status # "pending"]_vars
ExplicitWins == [][(act'.n = "seed" /\ s.explicit) => s'.status = s.status /\ obs'.told = <<>>]_vars
ToldOnChange == [][s'.status = s.status \/ \A j \in DOMAIN s.ls : \E k \in DOMAIN obs'.told : obs'.told[k].id = s.ls[j].id]_vars
OnceOnly == [][\A j \in DOMAIN s.ls : s.ls[j].once => Cardinality({k \in DOMAIN obs'.told : obs'.told[k].id = s.ls[j].id}) <= 1]_vars
QuietOtherwise == [][(act'.n \notin {"set", "seed"} \/ ~obs'.ret) => obs'.told = <<>>]_vars
===============================================================================
