--------------------------- MODULE ExposurePipeline ---------------------------
(* From an exposure of a flag's variant to its delivery: the once-per-session  *)
(* filter, the persistent queue, the integration that accepts or refuses, the  *)
(* one-second redelivery, page loads; and the custom provider beside it.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS
  Flags, Variants,      \* exposures; variant "~": exposure without a variant
  UserIds, DeviceIds,   \* "~": not set
  Cap,                  \* bound of the queue
  Bursts,               \* numbers of always-tracked (web) exposures in a row
  Budgets,              \* how many events the integration accepts before refusing; Inf: all
  MaxAttach,            \* integrations per page
  Stores,               \* subset of {"both", "none"}
  Detailed,             \* observe the whole queue (else length, first, last)
  Steps, Acts

Inf == 100000
Webs == IF Detailed THEN 8 ELSE 700
Pick(S) == S
Min2(a, b) == IF a < b THEN a ELSE b
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
NewId == [u |-> "~", d |-> "~"]
Nothing == [f \in Flags |-> "absent"]

VARIABLES cfg, s, act, obs
vars == <<cfg, s, act, obs>>
view == <<cfg, [s EXCEPT !.offers = <<>>, !.ep = <<>>, !.torn = <<>>]>>

Init0(sent, queue) ==
  [id |-> NewId, memId |-> NewId, sent |-> sent, epId |-> NewId, epSent |-> Nothing, queue |-> queue,
   cur |-> 0, old |-> {},                    \* redelivery timers: the current one, abandoned ones
   pend |-> 0, trk |-> 0, n |-> 0,           \* integration being set up, the one tracked to, how many attached
   budget |-> Inf, how |-> "no", web |-> 0,
   offers |-> <<>>, ep |-> <<>>, torn |-> <<>>]

Fresh(st) == [st EXCEPT !.offers = <<>>, !.ep = <<>>, !.torn = <<>>]
Disk(st) == IF cfg = "none" THEN [len |-> 0, first |-> "~", last |-> "~", all |-> <<>>]
            ELSE [len |-> Len(st.queue), first |-> IF st.queue = <<>> THEN "~" ELSE st.queue[1],
                  last |-> IF st.queue = <<>> THEN "~" ELSE st.queue[Len(st.queue)],
                  all |-> IF Detailed THEN st.queue ELSE <<>>]
O(st) == [offers |-> st.offers, ep |-> st.ep, torn |-> st.torn, disk |-> Disk(st)]

(* ---- the queue ----------------------------------------------------------------- *)
Trim(q) == IF Len(q) > Cap /\ cfg # "none" THEN SubSeq(q, Len(q) - Cap + 1, Len(q)) ELSE q
Flush(st) ==
  IF st.trk = 0 \/ st.queue = <<>> THEN st
  ELSE LET m == Min2(st.budget, Len(st.queue))
           shown == Min2(m + 1, Len(st.queue))
           off == [j \in 1..shown |-> [to |-> st.trk, ev |-> st.queue[j], ok |-> j <= m]]
           q == SubSeq(st.queue, m + 1, Len(st.queue)) IN
       [st EXCEPT !.queue = q, !.offers = @ \o off, !.budget = IF @ = Inf THEN @ ELSE @ - m,
                  !.cur = IF q = <<>> THEN 0 ELSE @]
Stored(st) == [st EXCEPT !.queue = Trim(@)]
Push(st, ev) == Stored(Flush([st EXCEPT !.queue = Append(@, ev)]))
Track(st, i) == Stored(Flush([st EXCEPT !.trk = i, !.old = IF st.cur = 0 THEN @ ELSE @ \cup {st.cur}, !.cur = 1000]))

(* ---- once per session ------------------------------------------------------------ *)
SameUser(a, b) ==
  IF a.u # "~" /\ b.u # "~" THEN a.u = b.u
  ELSE IF a.u = "~" /\ b.u = "~" THEN a.d = b.d ELSE FALSE
Expose(st, f, v) ==
  LET sent == IF SameUser(st.memId, st.id) THEN st.sent ELSE Nothing
      new == sent[f] # v
      eps == IF st.epId = st.id THEN st.epSent ELSE Nothing
      a == [st EXCEPT !.memId = st.id, !.sent = [sent EXCEPT ![f] = v], !.epId = st.id, !.epSent = [eps EXCEPT ![f] = v],
                      !.ep = IF eps[f] # v THEN Append(@, [f |-> f, v |-> v]) ELSE @] IN
  IF new THEN Push(a, f \o "=" \o v) ELSE a

RECURSIVE WebBurst(_, _)
WebBurst(st, k) ==
  IF k = 0 THEN st
  ELSE WebBurst([Push(st, "w" \o ToString(st.web)) EXCEPT !.web = (@ + 1) % Webs], k - 1)

Do(a, st) == /\ a.n \in Acts /\ act' = a /\ s' = st /\ obs' = O(st) /\ UNCHANGED cfg

Init == /\ cfg \in Stores
        /\ s = Init0(Nothing, <<>>)
        /\ act = [n |-> "init", stores |-> cfg] /\ obs = O(s)

ExposeA(f, v) == Do([n |-> "expose", f |-> f, v |-> v], Expose(Fresh(s), f, v))
(* the custom provider notes the identity of these too *)
Burst(k) == Do([n |-> "web", k |-> k],
   WebBurst([Fresh(s) EXCEPT !.epId = s.id, !.epSent = IF s.epId = s.id THEN @ ELSE Nothing], k))
Identify(u, d) == Do([n |-> "user", u |-> u, d |-> d], [Fresh(s) EXCEPT !.id = [u |-> u, d |-> d]])
Answer(b, h) == Do([n |-> "answer", budget |-> b, how |-> h], [Fresh(s) EXCEPT !.budget = b, !.how = h])
(* a new integration; the one before it is torn down, and is tracked to until the new one is ready *)
Attach(setup) ==
  /\ s.n < MaxAttach
  /\ LET i == s.n + 1
         b == [Fresh(s) EXCEPT !.n = i, !.torn = IF s.n = 0 THEN <<>> ELSE <<s.n>>] IN
     Do([n |-> "attach", setup |-> setup],
        IF setup THEN [b EXCEPT !.pend = i] ELSE Track([b EXCEPT !.pend = 0], i))
Settle(ok) == /\ s.pend # 0
              /\ Do([n |-> "settle", ok |-> ok], Track([Fresh(s) EXCEPT !.pend = 0], s.pend))
Late(i) ==  \* the setup of a replaced integration settles: nothing
  /\ i < s.n /\ Do([n |-> "late", i |-> i], Fresh(s))

Lefts == s.old \cup (IF s.cur = 0 THEN {} ELSE {s.cur})
Shift(d) == [Fresh(s) EXCEPT !.old = {x - d : x \in @}, !.cur = IF @ = 0 THEN 0 ELSE @ - d]
Wait(d) == (\A x \in Lefts : d < x) /\ Do([n |-> "wait", ms |-> d], Shift(d))
Tick ==
  /\ Lefts # {}
  /\ LET d == Min(Lefts)
         a == Shift(d)
         hasOld == 0 \in a.old
         hasCur == s.cur = d
         r(st) == Stored(Flush(st))
         b == IF hasOld THEN r([a EXCEPT !.old = (@ \ {0}) \cup {1000}, !.cur = IF hasCur THEN 1000 ELSE @])
              ELSE [a EXCEPT !.cur = IF hasCur THEN 1000 ELSE @]
         \* cleared by the abandoned timer: the current one does not fire
         c == IF hasCur /\ b.cur # 0 THEN r(b) ELSE b IN
     Do([n |-> "wait", ms |-> d], c)

Reload ==
  Do([n |-> "reload"], [Init0(IF cfg = "none" THEN Nothing ELSE s.sent, IF cfg = "none" THEN <<>> ELSE s.queue) EXCEPT !.web = s.web])
NewSession ==   \* a new tab: session storage is empty, the rest as after a page load
  Do([n |-> "newSession"], [Init0(Nothing, IF cfg = "none" THEN <<>> ELSE s.queue) EXCEPT !.web = s.web])

Next ==
  \/ \E f \in Pick(Flags), v \in Pick(Variants) : ExposeA(f, v)
  \/ \E k \in Pick(Bursts) : Burst(k)
  \/ \E u \in Pick(UserIds), d \in Pick(DeviceIds) : Identify(u, d)
  \/ \E b \in Pick(Budgets), h \in Pick({"no", "throw"}) : Answer(b, h)
  \/ \E b \in Pick(BOOLEAN) : Attach(b)
  \/ \E b \in Pick(BOOLEAN) : Settle(b)
  \/ \E i \in Pick(1..MaxAttach) : Late(i)
  \/ \E d \in Pick(Steps) : Wait(d)
  \/ Tick
  \/ \E z \in Pick(1..5) : z = 1 /\ Reload
  \/ \E z \in Pick(1..10) : z = 1 /\ NewSession
Spec == Init /\ [][Next]_vars

(* ---- properties of the design ------------------------------------------------------ *)
Bounded == cfg = "none" \/ Len(s.queue) <= Cap
RefusedStays == [][ \A j \in 1..Len(obs'.offers) : ~obs'.offers[j].ok => obs'.offers[j].ev \in {s'.queue[i] : i \in 1..Len(s'.queue)} \/ Len(s'.queue) >= Cap ]_vars
InOrder == [][ act'.n = "wait" =>
   LET acc == SelectSeq(obs'.offers, LAMBDA o : o.ok) IN
   [j \in 1..Len(acc) |-> acc[j].ev] \o s'.queue = s.queue ]_vars
OnceUntilChange == [][ (act'.n = "expose" /\ s.sent[act'.f] = act'.v /\ SameUser(s.memId, s.id)) => s'.queue = s.queue /\ obs'.offers = <<>> ]_vars
FirstNeverSuppressed == [][ (act'.n = "expose" /\ (s.sent[act'.f] # act'.v \/ ~SameUser(s.memId, s.id))) =>
   LET ev == act'.f \o "=" \o act'.v IN
   \/ \E j \in 1..Len(obs'.offers) : obs'.offers[j].ev = ev
   \/ \E i \in 1..Len(s'.queue) : s'.queue[i] = ev ]_vars
=============================================================================
