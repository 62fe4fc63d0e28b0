----------------------------- MODULE EventHistory ------------------------------
(* The history behavioural targeting counts on: the newest events, kept in       *)
(* memory, written to the device a moment later, and shared with the other       *)
(* subdomains through the relay.                                                 *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Cap, Types, Bursts, Steps, Times, Starts, Damage, Debounce, Acts
VARIABLES s, act, obs
vars == <<s, act, obs>>
view == <<s>>
Pick(S) == S
Max2(a, b) == IF a > b THEN a ELSE b
(* A history is a sequence of blocks: k events in a row, numbered from e, of      *)
(* type y, which happened at time t.                                              *)
Block(e, k, t, y) == [e |-> e, k |-> k, t |-> t, y |-> y]
RECURSIVE Count(_)
Count(h) == IF h = <<>> THEN 0 ELSE Head(h).k + Count(Tail(h))
RECURSIVE DropFirst(_, _)
DropFirst(h, n) == IF n <= 0 \/ h = <<>> THEN h
                   ELSE IF Head(h).k <= n THEN DropFirst(Tail(h), n - Head(h).k)
                   ELSE <<[Head(h) EXCEPT !.e = @ + n, !.k = @ - n]>> \o Tail(h)
Newest(h) == DropFirst(h, Count(h) - Cap)
(* what of b is not among the events of h *)
RECURSIVE Without(_, _)
Without(bs, h) ==
  IF h = <<>> \/ bs = <<>> THEN bs
  ELSE LET c == Head(h)
           cut(b) == IF c.e >= b.e + b.k \/ c.e + c.k <= b.e THEN <<b>>
                     ELSE (IF c.e > b.e THEN <<[b EXCEPT !.k = c.e - b.e]>> ELSE <<>>)
                          \o (IF c.e + c.k < b.e + b.k THEN <<[b EXCEPT !.e = c.e + c.k, !.k = b.e + b.k - c.e - c.k]>> ELSE <<>>)
           each[i \in 0..Len(bs)] == IF i = 0 THEN <<>> ELSE each[i - 1] \o cut(bs[i]) IN
       Without(each[Len(bs)], Tail(h))
RECURSIVE Insert(_, _)
(* b after every block which is not later *)
Insert(h, b) == IF h = <<>> \/ h[Len(h)].t <= b.t THEN Append(h, b)
                ELSE Append(Insert(SubSeq(h, 1, Len(h) - 1), b), h[Len(h)])
RECURSIVE ByTime(_, _)
ByTime(done, h) == IF h = <<>> THEN done ELSE ByTime(Insert(done, Head(h)), Tail(h))
Union(a, b) == a \o Without(b, a)
Merged(a, b) == Newest(ByTime(<<>>, Union(a, b)))
(* blocks which follow on from each other are one, so that a history is shown one way *)
RECURSIVE Joined(_, _)
Joined(done, h) ==
  IF h = <<>> THEN done
  ELSE LET b == Head(h)
           l == IF done = <<>> THEN b ELSE done[Len(done)] IN
       Joined(IF done # <<>> /\ l.e + l.k = b.e /\ l.t = b.t /\ l.y = b.y
              THEN [done EXCEPT ![Len(done)].k = @ + b.k] ELSE Append(done, b), Tail(h))
Show(h) == Joined(<<>>, h)
(* disk: what the device holds: nothing, something unreadable, or a history, of   *)
(* which old versions kept no identities; sync: how far a synchronisation is;     *)
(* armed: whether the first consent decision is awaited                           *)
Init0 == [now |-> 0, e |-> 0, up |-> FALSE, status |-> "off", armed |-> FALSE, mem |-> <<>>, dirty |-> FALSE, timer |-> -1, allow |-> TRUE, full |-> FALSE,
          disk |-> [is |-> "none", h |-> <<>>], sync |-> "idle", sent |-> <<>>, attached |-> FALSE, migrated |-> FALSE, relay |-> <<>>]
Withheld(st) == st.status \in {"pending", "denied"}
Stored(st) == IF Withheld(st) \/ st.disk.is \notin {"ok", "old"} THEN <<>> ELSE st.disk.h
(* reading gives every event an identity, for good *)
Identified(st) == IF ~Withheld(st) /\ st.disk.is = "old" /\ ~st.full THEN [st EXCEPT !.disk.is = "ok"] ELSE st
Save(st) == [st EXCEPT !.dirty = FALSE, !.timer = -1, !.disk = IF Withheld(st) \/ st.full THEN @ ELSE [is |-> "ok", h |-> st.mem]]
Flush(st) == IF st.dirty THEN Save(st) ELSE st
Later(st) == [st EXCEPT !.dirty = TRUE, !.timer = Debounce]
Do(a, st, wrote, res) ==
  /\ a.n \in Acts
  /\ s' = st
  /\ act' = a
  /\ obs' = [mem |-> IF st.up THEN Show(st.mem) ELSE <<>>, disk |-> [is |-> st.disk.is, h |-> Show(st.disk.h)], wrote |-> Show(wrote), relay |-> Show(st.relay), res |-> res]
Init == s = Init0 /\ act = [n |-> "init"] /\ obs = [mem |-> <<>>, disk |-> [is |-> "none", h |-> <<>>], wrote |-> <<>>, relay |-> <<>>, res |-> "~"]
(* a page begins with what the device holds; what was not written is gone *)
Page(c, allow) ==
  LET st == [s EXCEPT !.up = TRUE, !.status = c, !.armed = (c = "pending"), !.dirty = FALSE, !.timer = -1, !.sync = "idle", !.sent = <<>>, !.attached = FALSE, !.allow = allow] IN
  Do([n |-> "page", c |-> c, allow |-> allow], Identified([st EXCEPT !.mem = Stored(st)]), <<>>, "~")
Kept(y) == ~s.allow \/ y # "x"
(* k events of type y, which happened ago ms before now *)
Add(k, y, ago) ==
  LET b == Block(s.e, k, s.now - ago, y)
      st == [s EXCEPT !.e = @ + k] IN
  Do([n |-> "add", k |-> k, y |-> y, ago |-> ago],
     IF Kept(y) THEN Later([st EXCEPT !.mem = Newest(Append(@, b)), !.relay = IF st.attached /\ ~Withheld(st) THEN Append(@, b) ELSE @]) ELSE st,
     IF Kept(y) /\ s.attached /\ ~Withheld(s) THEN <<b>> ELSE <<>>, "~")
Wait(d) ==
  /\ s.timer = -1 \/ d <= s.timer
  /\ LET st == [s EXCEPT !.now = @ + d, !.timer = IF @ = -1 THEN -1 ELSE @ - d] IN
     Do([n |-> "wait", ms |-> d], IF st.timer = 0 THEN Flush([st EXCEPT !.timer = -1]) ELSE st, <<>>, "~")
(* the tab is hidden, or the page goes away *)
Leave(how) == Do([n |-> "leave", how |-> how], Flush(s), <<>>, IF s.attached /\ ~Withheld(s) THEN "flushed" ELSE "~")
(* the first decision settles what was collected while undecided *)
Decide(v) ==
  /\ s.status \notin {"off", v}
  /\ LET st == [s EXCEPT !.status = v, !.armed = FALSE]
         dev == Stored(st)
         st1 == Identified(st) IN
     Do([n |-> "decide", v |-> v],
        IF ~s.armed THEN st
        ELSE IF v = "denied" THEN [st EXCEPT !.mem = <<>>, !.dirty = FALSE, !.timer = -1]
        ELSE IF dev = <<>> /\ st.mem = <<>> THEN st1
        ELSE Save([st1 EXCEPT !.mem = Merged(@, dev)]), <<>>, "~")
Device(k) == (k = "old" => ~s.full) /\
  LET h == IF k = "old" THEN <<Block(s.e, 1, s.now - 9, "a"), Block(s.e + 1, 1, s.now - 9, "b")>> ELSE <<>> IN
  Do([n |-> "device", k |-> k], [s EXCEPT !.e = @ + 2, !.disk = [is |-> k, h |-> h]], <<>>, "~")
(* (a full device cannot keep identities either) *)
Full == s.disk.is # "old" /\ Do([n |-> "full", on |-> ~s.full], [s EXCEPT !.full = ~@], <<>>, "~")
Clear == Do([n |-> "clear"], Save([s EXCEPT !.mem = <<>>, !.dirty = TRUE]), <<>>, "~")
(* ---------------------------------------------------------------- the relay -- *)
(* another subdomain has recorded k events *)
Other(k, ago) == Do([n |-> "other", k |-> k, ago |-> ago], [s EXCEPT !.e = @ + k, !.relay = Append(@, Block(s.e, k, s.now - ago, "a"))], <<>>, "~")
Failed(st) == [st EXCEPT !.sync = "idle", !.sent = <<>>, !.attached = FALSE]
Sync(available) ==
  /\ s.sync = "idle"
  /\ IF available /\ ~Withheld(s) THEN Do([n |-> "sync", available |-> TRUE], [s EXCEPT !.sync = "check"], <<>>, "~")
     ELSE Do([n |-> "sync", available |-> available], Failed(s), <<>>, "failed")
Answer(ok) ==
  /\ s.sync # "idle"
  /\ LET a == [n |-> "answer", ok |-> ok, stage |-> s.sync] IN
     CASE ~ok -> Do(a, Failed(s), <<>>, "failed")
       [] ok /\ s.sync = "migrate" ->
            LET st == [s EXCEPT !.relay = Union(@, s.sent), !.migrated = TRUE] IN
            IF Withheld(s) THEN Do(a, Failed(st), <<>>, "failed") ELSE Do(a, [st EXCEPT !.sync = "read", !.sent = <<>>], <<>>, "~")
       [] ok /\ s.sync = "check" ->
            IF Withheld(s) THEN Do(a, Failed(s), <<>>, "failed")
            ELSE Do(a, IF ~s.migrated /\ s.mem # <<>> THEN [s EXCEPT !.sync = "migrate", !.sent = s.mem] ELSE [s EXCEPT !.sync = "read"], <<>>, "~")
       [] ok /\ s.sync = "read" ->
            LET missing == Without(s.mem, s.relay) IN
            IF Withheld(s) THEN Do(a, Failed(s), <<>>, "failed")
            ELSE Do(a, Later([s EXCEPT !.sync = "idle", !.attached = TRUE, !.relay = @ \o missing, !.mem = Merged(@, s.relay)]), missing, "done")
Next ==
  \/ \E c \in Pick(Starts), allow \in Pick({TRUE, FALSE}), z \in Pick(1..2) : (~s.up \/ z = 1) /\ Page(c, allow)
  \/ s.up /\ \E k \in Pick(Bursts), y \in Pick(Types), ago \in Pick(Times) : Add(k, y, ago)
  \/ \E d \in Pick(Steps) : Wait(d)
  \/ s.up /\ \E how \in Pick({"hide", "unload"}) : Leave(how)
  \/ s.up /\ \E v \in Pick({"granted", "denied"}) : Decide(v)
  \/ \E k \in Pick(Damage), z \in Pick(1..3) : z = 1 /\ Device(k)
  \/ \E z \in Pick(1..4) : z = 1 /\ Full
  \/ s.up /\ \E z \in Pick(1..6) : z = 1 /\ Clear
  \/ \E k \in Pick(Bursts), ago \in Pick(Times) : Other(k, ago)
  \/ s.up /\ \E av \in Pick({TRUE, FALSE}) : Sync(av)
  \/ s.up /\ \E ok \in Pick({TRUE, FALSE}), z \in Pick(1..3) : (ok \/ z = 1) /\ Answer(ok)
Spec == Init /\ [][Next]_vars
(* ------------------------------------------------------------------ promises - *)
EventsOf(h) == UNION {h[i].e..(h[i].e + h[i].k - 1) : i \in DOMAIN h}
Bounded == Count(s.mem) <= Cap /\ Count(s.disk.h) <= Cap
OnceEach(h) == Cardinality(EventsOf(h)) = Count(h)
NoDuplicates == OnceEach(s.mem) /\ OnceEach(s.disk.h) /\ OnceEach(s.relay)
(* unless something is about to be written, or may not be, the device is up to date *)
UpToDate == (s.up /\ ~s.dirty /\ ~Withheld(s)) => (s.timer = -1)
WrittenSoon == s.dirty => s.timer \in 1..Debounce
(* nothing is written to the device or sent to the relay without consent *)
NothingWithoutConsent == [][(Withheld(s) /\ act'.n \notin {"decide", "page", "device"}) => (s'.disk = s.disk /\ obs'.wrote = <<>>)]_vars
(* an event leaves the history only for being among the oldest of too many, by a   *)
(* refusal, or with a page that did not live to write it                           *)
Forgotten == EventsOf(s.mem) \ EventsOf(s'.mem)
NothingLost == [][(act'.n \in {"add", "wait", "leave", "decide", "answer", "other", "sync"} /\ Forgotten # {}) =>
  (act'.n = "decide" /\ act'.v = "denied") \/ Count(s'.mem) = Cap]_vars
(* a synchronisation that succeeds leaves both sides with everything, up to the bound *)
InStep == [][obs'.res = "done" => (EventsOf(s.mem) \cup EventsOf(s.relay)) = EventsOf(s'.relay) /\ (Count(s'.mem) < Cap => EventsOf(s'.mem) = EventsOf(s'.relay))]_vars
MergedInOrder == [][obs'.res = "done" => \A i \in 1..Len(s'.mem) - 1 : s'.mem[i].t <= s'.mem[i + 1].t]_vars
===============================================================================
