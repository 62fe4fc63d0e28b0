----------------------------- MODULE EventBridge -----------------------------
(* The connector's event bridge: events logged before a receiver attaches     *)
(* are queued (first Cap of them) and replayed to the first receiver.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Insts, Recvs, Cap, Bursts, MaxEvents
VARIABLES queue, recv, next, logged, got, act, obs
(* queue[i]  events held; recv[i] current receiver or "none"                   *)
(* logged[i] / got[i]: history of ids logged and delivered (for the invariant) *)
vars == <<queue, recv, next, logged, got, act, obs>>
view == <<queue, recv, next>>

Init ==
  /\ queue = [i \in Insts |-> <<>>]
  /\ recv = [i \in Insts |-> "none"]
  /\ next = 1
  /\ logged = [i \in Insts |-> <<>>]
  /\ got = [i \in Insts |-> <<>>]
  /\ act = [n |-> "init"]
  /\ obs = [calls |-> <<>>]

Ids(k) == [j \in 1..k |-> next + j - 1]
Keep(s) == IF Len(s) <= Cap THEN s ELSE SubSeq(s, 1, Cap)
Calls(r, s) == [j \in 1..Len(s) |-> [r |-> r, e |-> s[j]]]

Log(i, k) ==
  /\ next + k - 1 <= MaxEvents
  /\ next' = next + k
  /\ logged' = [logged EXCEPT ![i] = @ \o Ids(k)]
  /\ IF recv[i] = "none"
       THEN /\ queue' = [queue EXCEPT ![i] = Keep(@ \o Ids(k))]
            /\ obs' = [calls |-> <<>>]
            /\ got' = got
       ELSE /\ queue' = queue
            /\ obs' = [calls |-> Calls(recv[i], Ids(k))]
            /\ got' = [got EXCEPT ![i] = @ \o Ids(k)]
  /\ recv' = recv
  /\ act' = [n |-> "log", i |-> i, k |-> k, first |-> next]

(* does: what the receiver does when told the first of the events held -- nothing, *)
(* log another event (which comes after those held), or attach another receiver     *)
(* (which gets only later events)                                     *)
Attach(i, r, does) ==
  LET logs == does = "logs" /\ queue[i] # <<>>
      hands == does = "hands" /\ queue[i] # <<>>
      all == queue[i] \o (IF logs THEN <<next>> ELSE <<>>) IN
  /\ ~logs \/ next <= MaxEvents
  /\ next' = IF logs THEN next + 1 ELSE next
  /\ logged' = IF logs THEN [logged EXCEPT ![i] = Append(@, next)] ELSE logged
  /\ recv' = [recv EXCEPT ![i] = IF hands THEN "r0" ELSE r]
  /\ obs' = [calls |-> Calls(r, all)]
  /\ got' = [got EXCEPT ![i] = @ \o all]
  /\ queue' = [queue EXCEPT ![i] = <<>>]
  /\ act' = [n |-> "attach", i |-> i, r |-> r, does |-> does, id |-> next]

(* asking for an instance by name again yields the same connector *)
Lookup(i) ==
  /\ act' = [n |-> "lookup", i |-> i]
  /\ obs' = [calls |-> <<>>, same |-> TRUE, distinct |-> Cardinality(Insts)]
  /\ UNCHANGED <<queue, recv, next, logged, got>>

Next ==
  \/ \E i \in Insts, k \in Bursts : Log(i, k)
  \/ \E i \in Insts, r \in Recvs, d \in {"", "logs", "hands"} : Attach(i, r, d)
  \/ \E i \in Insts : Lookup(i)

Spec == Init /\ [][Next]_vars

(* --- properties of the design --- *)
RECURSIVE SubseqOf(_, _)
SubseqOf(a, b) == IF a = <<>> THEN TRUE
                  ELSE IF b = <<>> THEN FALSE
                  ELSE IF Head(a) = Head(b) THEN SubseqOf(Tail(a), Tail(b))
                  ELSE SubseqOf(a, Tail(b))
InOrderOnce == \A i \in Insts : SubseqOf(got[i] \o queue[i], logged[i])
NothingLostUnderCap == \A i \in Insts :
   Len(logged[i]) <= Cap => got[i] \o queue[i] = logged[i]
Bounded == \A i \in Insts : Len(queue[i]) <= Cap
DirectWhenAttached == \A i \in Insts : recv[i] # "none" => queue[i] = <<>>
=============================================================================
