--------------------------- MODULE ClientLifecycle ---------------------------
(* start / stop / polling of an experiment client, loading of flag            *)
(* configurations, and local evaluation of whatever is loaded for whoever is  *)
(* the user at the moment of the lookup. Time in ms.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS
  Users,      \* user ids; plans of users below
  Flags,      \* "f1", "f2", ...
  Bodies,     \* possible flag payloads: [Flags -> Kinds]
  Slots, Starts,
  Configs,    \* [throw, poll, fetch, interval, init]; interval -1: not given
  Steps,
  Acts        \* names of the actions offered

(* Flag kinds: "~" absent; "a","b" on for everyone; "uid" on for u1; "gold" on
   for users on the gold plan; "dep" on when f1 resolves to a, uid or rem;
   "rem" not for local evaluation.                                            *)
Plan(u) == CASE u = "u1" -> "gold" [] u = "u2" -> "free" [] OTHER -> "~"

Timeout == 10000
Pick(S) == S
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
EffInterval(c) == IF c.interval = -1 THEN 300000 ELSE IF c.interval < 60000 THEN 60000 ELSE c.interval

NoFlags == [f \in Flags |-> "~"]
FreeReq == [st |-> "free", kind |-> "~", start |-> 0, left |-> 0]
NoStart == [st |-> "free", flags |-> FALSE, fetch |-> FALSE]

VARIABLES cfg, s, act, obs
vars == <<cfg, s, act, obs>>
view == <<cfg, [s EXCEPT !.sent = <<>>, !.done = <<>>]>>

(* ---- evaluation of the loaded flags ---------------------------------------- *)
Uid(st) == IF st.user \in Users THEN st.user ELSE st.prov
UPlan(st) == IF st.user \in Users /\ Plan(st.user) # "~" THEN Plan(st.user) ELSE Plan(st.prov)
Result1(k, st) ==
  CASE k = "uid" -> IF Uid(st) = "u1" THEN "uid" ELSE "~"
    [] k = "gold" -> IF UPlan(st) = "gold" THEN "gold" ELSE "~"
    [] OTHER -> k
Result(f, st) ==
  LET k == st.flags[f] IN
  IF k = "dep" THEN (IF Result1(st.flags["f1"], st) \in {"a", "uid", "rem"} THEN "dep" ELSE "~")
  ELSE Result1(k, st)
Listed(st) == [f \in Flags |-> IF st.flags[f] = "rem" THEN "~" ELSE Result(f, st)]

(* a single lookup also answers from a flag not marked for local evaluation when
   nothing else is known about it, as in this specification *)
Looked(st) == [f \in Flags |-> Result(f, st)]

O(st) == [all |-> Listed(st), look |-> Looked(st), disk |-> st.disk, sent |-> st.sent, done |-> st.done]

(* ---- state transformers ----------------------------------------------------- *)
FreeSlots(st) == {x \in Slots : st.req[x].st = "free"}
Sent(st, kind, start) ==
  LET n == Min(FreeSlots(st)) IN
  [st EXCEPT !.req = [@ EXCEPT ![n] = [st |-> "out", kind |-> kind, start |-> start, left |-> Timeout]],
             !.sent = Append(@, [slot |-> n, kind |-> kind, user |-> IF kind = "fetch" THEN Uid(st) ELSE "~"])]
PollStart(st) ==
  IF st.poll THEN st
  ELSE Sent([st EXCEPT !.poll = TRUE, !.pollLeft = EffInterval(cfg)], "flags", 0)
Detach(st, i) == [x \in Slots |-> IF st.req[x].st = "out" /\ st.req[x].start = i THEN [st.req[x] EXCEPT !.start = 0] ELSE st.req[x]]
Finish(st, i, ok) ==
  LET b == [st EXCEPT !.starts = [@ EXCEPT ![i] = NoStart], !.req = Detach(st, i),
                      !.done = Append(@, [start |-> i, ok |-> ok])] IN
  IF ok /\ cfg.poll /\ st.running THEN PollStart(b) ELSE b
(* part ("flags"/"fetch") of start i ended; err: it failed with an error that start sees *)
Part(st, i, part, err) ==
  IF i = 0 THEN st
  ELSE IF err THEN Finish(st, i, ~cfg.throw)
  ELSE LET b == [st EXCEPT !.starts = [@ EXCEPT ![i] =
                    IF part = "flags" THEN [@ EXCEPT !.flags = TRUE] ELSE [@ EXCEPT !.fetch = TRUE]]] IN
       IF b.starts[i].flags /\ b.starts[i].fetch THEN Finish(b, i, TRUE) ELSE b
Fill(m) == [f \in Flags |-> IF m[f] = "~" THEN cfg.init[f] ELSE m[f]]
Freed(st, n) == [st EXCEPT !.req = [@ EXCEPT ![n] = FreeReq]]

FlagsOk(st, n, body) ==
  Part([Freed(st, n) EXCEPT !.flags = Fill(body), !.disk = body], st.req[n].start, "flags", FALSE)
FlagsErr(st, n) == Part(Freed(st, n), st.req[n].start, "flags", TRUE)
(* a time-out is not an error unless so configured; the flags at hand are kept *)
FlagsTimeout(st, n) ==
  IF cfg.throw THEN Part(Freed(st, n), st.req[n].start, "flags", TRUE)
  ELSE Part(Freed(st, n), st.req[n].start, "flags", FALSE)
FetchEnd(st, n, ok) == Part(Freed(st, n), st.req[n].start, "fetch", ~ok /\ cfg.throw)

Fresh(st) == [st EXCEPT !.sent = <<>>, !.done = <<>>]
Do(a, st) == /\ a.n \in Acts /\ act' = a /\ s' = st /\ obs' = O(st) /\ UNCHANGED cfg

Init ==
  /\ cfg \in Configs
  /\ s = [running |-> FALSE, poll |-> FALSE, pollLeft |-> 0, flags |-> cfg.init, disk |-> NoFlags,
          user |-> "~", prov |-> "~", req |-> [x \in Slots |-> FreeReq],
          starts |-> [i \in Starts |-> NoStart], sent |-> <<>>, done |-> <<>>]
  /\ act = [n |-> "init", cfg |-> cfg]
  /\ obs = O(s)

Start(u) ==
  LET a == [n |-> "start", user |-> u] IN
  IF s.running THEN Do(a, [Fresh(s) EXCEPT !.done = <<[start |-> 0, ok |-> TRUE]>>])
  ELSE /\ Cardinality(FreeSlots(s)) >= 2
       /\ \E i \in Starts : s.starts[i].st = "free" /\ \A j \in Starts : j < i => s.starts[j].st # "free"
       /\ LET i == Min({j \in Starts : s.starts[j].st = "free"})
              b == [Fresh(s) EXCEPT !.running = TRUE, !.user = u,
                      !.starts = [@ EXCEPT ![i] = [st |-> "wait", flags |-> FALSE, fetch |-> ~cfg.fetch]]]
              c == Sent(b, "flags", i) IN
          Do(a, IF cfg.fetch THEN Sent(c, "fetch", i) ELSE c)
Stop == Do([n |-> "stop"], IF s.running THEN [Fresh(s) EXCEPT !.running = FALSE, !.poll = FALSE, !.pollLeft = 0] ELSE Fresh(s))

Out(n, kind) == s.req[n].st = "out" /\ s.req[n].kind = kind
OkFlags(n, b) == Out(n, "flags") /\ Do([n |-> "okFlags", slot |-> n, body |-> b], FlagsOk(Fresh(s), n, b))
OkFetch(n) == Out(n, "fetch") /\ Do([n |-> "okFetch", slot |-> n], FetchEnd(Fresh(s), n, TRUE))
Fail(n, how) ==
  /\ s.req[n].st = "out"
  /\ Do([n |-> "fail", slot |-> n, how |-> how],
        IF s.req[n].kind = "flags" THEN FlagsErr(Fresh(s), n) ELSE FetchEnd(Fresh(s), n, FALSE))

Lefts == {s.req[n].left : n \in {x \in Slots : s.req[x].st = "out"}} \cup (IF s.poll THEN {s.pollLeft} ELSE {})
Dec(st, d) == [Fresh(st) EXCEPT !.req = [x \in Slots |-> IF st.req[x].st = "out" THEN [st.req[x] EXCEPT !.left = @ - d] ELSE st.req[x]],
                                !.pollLeft = IF st.poll THEN @ - d ELSE @]
Wait(d) == d > 0 /\ (\A x \in Lefts : d < x) /\ Do([n |-> "wait", ms |-> d], Dec(s, d))
Expire ==
  /\ Lefts # {}
  /\ LET d == Min(Lefts)
         due == {n \in Slots : s.req[n].st = "out" /\ s.req[n].left = d}
         a == [n |-> "wait", ms |-> d]
         t == Dec(s, d) IN
     \/ /\ s.poll /\ s.pollLeft = d /\ due = {} /\ FreeSlots(s) # {}
        /\ Do(a, Sent([t EXCEPT !.pollLeft = EffInterval(cfg)], "flags", 0))
     \/ /\ ~(s.poll /\ s.pollLeft = d) /\ Cardinality(due) = 1
        /\ LET n == CHOOSE x \in due : TRUE IN
           Do(a, IF s.req[n].kind = "flags" THEN FlagsTimeout(t, n) ELSE FetchEnd(t, n, FALSE))
     \/ (* flags and fetch of one start: sent together, in that order *)
        /\ ~(s.poll /\ s.pollLeft = d) /\ Cardinality(due) = 2
        /\ \E n, m \in due : /\ s.req[n].kind = "flags" /\ s.req[m].kind = "fetch"
                             /\ s.req[n].start = s.req[m].start /\ s.req[n].start # 0
                             /\ LET t1 == FlagsTimeout([t EXCEPT !.req = [@ EXCEPT ![m] = [@ EXCEPT !.left = 0]]], n) IN
                                Do(a, FetchEnd(t1, m, FALSE))

SetUser(u) == Do([n |-> "setUser", user |-> u], [Fresh(s) EXCEPT !.user = u])
SetProvider(u) == Do([n |-> "provider", user |-> u], [Fresh(s) EXCEPT !.prov = u])
(* the page is loaded again, perhaps with a later release of the flags built in *)
Reload == \E up \in Pick({FALSE, TRUE}) :
  LET built == IF up THEN [cfg.init EXCEPT !["f1"] = "a"] ELSE cfg.init
      full == [f \in Flags |-> IF s.disk[f] = "~" THEN built[f] ELSE s.disk[f]]
      st == [running |-> FALSE, poll |-> FALSE, pollLeft |-> 0, flags |-> full, disk |-> s.disk,
             user |-> "~", prov |-> "~", req |-> [x \in Slots |-> FreeReq],
             starts |-> [i \in Starts |-> NoStart], sent |-> <<>>, done |-> <<>>] IN
  "reload" \in Acts /\ act' = [n |-> "reload", init |-> built] /\ s' = st /\ obs' = O(st) /\ cfg' = [cfg EXCEPT !.init = built]

Next ==
  \/ \E u \in Pick(Users \cup {"~"}) : Start(u)
  \/ \E z \in Pick(1..3) : z = 1 /\ Stop
  \/ \E n \in Slots, b \in Pick(Bodies) : OkFlags(n, b)
  \/ \E n \in Slots : OkFetch(n)
  \/ \E n \in Slots, h \in Pick({500, 404, 0}) : Fail(n, h)
  \/ \E d \in Pick(Steps) : Wait(d)
  \/ Expire
  \/ \E u \in Pick(Users \cup {"~"}), z \in Pick(1..2) : z = 1 /\ SetUser(u)
  \/ \E u \in Pick(Users \cup {"~"}), z \in Pick(1..3) : z = 1 /\ SetProvider(u)
  \/ \E z \in Pick(1..10) : z = 1 /\ Reload
Spec == Init /\ [][Next]_vars

(* ---- properties of the design ------------------------------------------------ *)
PollOnlyWhileRunning == s.poll => s.running /\ cfg.poll
StoppedSendsNothing == [][ (act'.n \in {"wait", "okFlags", "okFetch", "fail"} /\ ~s.running) => obs'.sent = <<>> ]_vars
PollPeriod == s.poll => s.pollLeft >= 0 /\ s.pollLeft <= EffInterval(cfg) /\ EffInterval(cfg) >= 60000
FailureKeepsFlags == [][ act'.n \in {"fail", "wait", "stop", "start", "okFetch"} => s'.flags = s.flags ]_vars
StartIdempotent == [][ (act'.n = "start" /\ s.running) => (s'.req = s.req /\ s'.user = s.user) ]_vars
OnePollPerTick == [][ act'.n = "wait" => Len(obs'.sent) <= 1 ]_vars
=============================================================================
