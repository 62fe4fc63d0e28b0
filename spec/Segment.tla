-------------------------------- MODULE Segment --------------------------------
(* The Segment integration of an experiment client: waiting for Segment to be   *)
(* ready, the identity it provides and the exposures it passes on.              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Kinds, Ids, Vals, Persisted, MaxSetups, Acts
VARIABLES s, act, obs
vars == <<s, act, obs>>
view == <<s>>
Pick(S) == S
(* kind: how the integration is made                                            *)
(*   given, own: with an instance / for the instance on the page, skip: no setup *)
(* page: "none" nothing yet, "stub" a queue, "loaded" Segment, "ready" started   *)
(* queued, asked: waiting setups whose request to be told Segment does not know  *)
(*   yet / knows; polled: those that also look for themselves                    *)
(* u, d, p: Segment's identity; per: what it stored ("bad": not readable)        *)
Blank == [u |-> "~", d |-> "~", p |-> "~"]
Start(k, pg) == [kind |-> k, page |-> pg, queued |-> 0, asked |-> 0, polled |-> 0, resolved |-> 0, ready |-> FALSE, id |-> Blank, per |-> Blank, store |-> "ok"]
Setups(st) == st.queued + st.asked + st.polled
SettleAll(st) == [st EXCEPT !.ready = TRUE, !.resolved = @ + st.queued + st.asked + st.polled, !.queued = 0, !.asked = 0, !.polled = 0]
(* those asked are told; the others, in the queue of a page whose Segment does not *)
(* look there, find out when they next look                                        *)
Tell(st) == IF st.asked = 0 THEN st ELSE [st EXCEPT !.ready = TRUE, !.resolved = @ + st.asked, !.asked = 0]

Clean(v) == IF v = "bad" THEN "~" ELSE v
UserOf(st) ==
  IF st.ready THEN st.id
  ELSE IF st.store # "ok" THEN Blank
  ELSE [u |-> Clean(st.per.u), d |-> Clean(st.per.d), p |-> Clean(st.per.p)]
Obs(st, tr, ok) == [user |-> UserOf(st), resolved |-> st.resolved, tracked |-> tr, ok |-> ok]
Do(a, st, tr, ok) == a.n \in Acts /\ s' = st /\ act' = a /\ obs' = Obs(st, tr, ok)

Init == \E k \in Pick(Kinds) :
  /\ s = Start(k.how, k.page)
  /\ act = [n |-> "init", kind |-> k]
  /\ obs = Obs(s, <<>>, TRUE)

Setup ==
  /\ s.kind # "skip" /\ s.resolved + Setups(s) < MaxSetups
  /\ Do([n |-> "setup"], CASE s.page = "ready" -> Tell([s EXCEPT !.asked = @ + 1])
                           [] s.page = "loaded" -> [s EXCEPT !.asked = @ + 1]
                           [] OTHER -> [s EXCEPT !.queued = @ + 1], <<>>, TRUE)
(* Segment arrives; reads: whether it looks at what the queue asked for *)
Load(reads) ==
  /\ s.page \in {"none", "stub"}
  /\ Do([n |-> "load", reads |-> reads],
        IF reads THEN [s EXCEPT !.page = "loaded", !.asked = @ + s.queued, !.queued = 0]
        ELSE [s EXCEPT !.page = "loaded", !.polled = @ + s.queued, !.queued = 0], <<>>, TRUE)
Ready == /\ s.page = "loaded"
         /\ Do([n |-> "ready"], Tell([s EXCEPT !.page = "ready"]), <<>>, TRUE)
Wait == Do([n |-> "wait", ms |-> 50], IF s.page = "ready" /\ s.polled > 0 THEN SettleAll(s) ELSE s, <<>>, TRUE)
Identify(i) == /\ s.page \in {"loaded", "ready"} /\ s.id # i
               /\ Do([n |-> "identify", id |-> i], [s EXCEPT !.id = i], <<>>, TRUE)
Persist(i) == Do([n |-> "persist", id |-> i], [s EXCEPT !.per = i], <<>>, TRUE)
Store(m) == Do([n |-> "store", mode |-> m], [s EXCEPT !.store = m], <<>>, TRUE)
Track(v) ==
  LET ok == s.ready IN
  Do([n |-> "track", v |-> v], s, IF ok THEN <<[name |-> "$exposure", v |-> v]>> ELSE <<>>, ok)
Next ==
  \/ Setup
  \/ \E r \in {TRUE, FALSE} : Load(r)
  \/ Ready
  \/ Wait
  \/ \E i \in Pick(Ids) : Identify(i)
  \/ \E i \in Pick(Persisted) : Persist(i)
  \/ \E z \in Pick(1..3), m \in Pick({"ok", "blocked", "absent"}) : z = 1 /\ Store(m)
  \/ \E v \in Pick(Vals) : Track(v)
Spec == Init /\ [][Next]_vars

(* ---- the design ------------------------------------------------------------------ *)
ReadyMeansReady == s.ready => s.page = "ready" /\ s.kind # "skip"
ResolvedMeansReady == s.resolved > 0 => s.ready
NobodyForgotten == s.page = "ready" => s.queued = 0 /\ s.asked = 0
RefusedUnlessReady == [][act'.n = "track" => (obs'.ok = s.ready /\ (obs'.ok <=> obs'.tracked # <<>>))]_vars
StaysReady == [][s.ready => s'.ready]_vars
===============================================================================
