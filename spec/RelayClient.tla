------------------------------ MODULE RelayClient ------------------------------
(* The client of the relay: a hidden frame of another origin which keeps what    *)
(* the visitor did on every subdomain. Writes are kept until the frame confirms   *)
(* them; requests are answered by the reply to them, or fail.                     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Events, MaxReq, MaxWait, Steps, Limit, BodyLate, Acts
VARIABLES s, act, obs
vars == <<s, act, obs>>
view == <<s>>
Pick(S) == S
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
(* init: ms until starting is given up on, 0 when nobody waits; inits: how many    *)
(* wait for it; waits: ms left of those waiting for the frame (0: settled); reqs:   *)
(* requests in the order sent, left 0 when no longer open                           *)
Init0 == [started |-> FALSE, destroyed |-> FALSE, body |-> TRUE, frame |-> 0, made |-> 0, available |-> FALSE, init |-> 0, inits |-> {}, ni |-> 0,
          waits |-> <<>>, writes |-> <<>>, reqs |-> <<>>]
Open(st) == {i \in DOMAIN st.reqs : st.reqs[i].left > 0}
WaitingFor(st) == {i \in DOMAIN st.waits : st.waits[i] > 0}
Req(kind, e, id) == [kind |-> kind, e |-> e, left |-> Limit, id |-> id]
Public(st, is) == {i \in is : st.reqs[i].kind # "write"}
Post(st, from) == [j \in 1..(Len(st.reqs) - from) |-> [kind |-> st.reqs[from + j].kind, e |-> st.reqs[from + j].e]]
Settled(w, is, r) == {[w |-> w, i |-> i, r |-> r] : i \in is}
(* open requests are numbered; those no longer open are forgotten when none is open *)
Do(a, st, from, settled) ==
  /\ a.n \in Acts
  /\ Len(st.reqs) <= MaxReq /\ Len(st.waits) <= MaxWait /\ st.ni <= MaxWait
  /\ s' = st
  /\ act' = a
  /\ obs' = [posted |-> Post(st, from), settled_set |-> settled, available |-> st.available, frames |-> IF st.frame = 0 THEN 0 ELSE 1]
Same(a, st, settled) == Do(a, st, Len(st.reqs), settled)
Init == s \in {[Init0 EXCEPT !.body = ~late] : late \in BodyLate} /\ act = [n |-> "init", body |-> s.body] /\ obs = [posted |-> <<>>, settled_set |-> {}, available |-> FALSE, frames |-> 0]
Start ==
  LET id == s.ni + 1
      st == [s EXCEPT !.ni = id] IN
  IF s.started THEN IF s.init > 0 THEN Same([n |-> "start"], [st EXCEPT !.inits = @ \cup {id}], {}) ELSE Same([n |-> "start"], st, Settled("init", {id}, "done"))
  ELSE Same([n |-> "start"], [st EXCEPT !.started = TRUE, !.destroyed = FALSE, !.available = FALSE, !.init = Limit, !.inits = {id},
                                        !.frame = IF s.body THEN s.made + 1 ELSE 0, !.made = IF s.body THEN @ + 1 ELSE @], {})
RECURSIVE SendAll(_, _)
SendAll(st, es) == IF es = <<>> THEN st ELSE SendAll([st EXCEPT !.reqs = Append(@, Req("write", Head(es), Len(@) + 1))], Tail(es))
(* the frame reports that it is there *)
Ready(genuine, form) ==
  /\ s.made > 0
  /\ LET a == [n |-> "ready", genuine |-> genuine, form |-> form] IN
     IF genuine # "yes" \/ s.frame = 0 \/ s.available THEN Same(a, s, {})
     ELSE Do(a, SendAll([s EXCEPT !.available = TRUE, !.init = 0, !.inits = {}, !.waits = [i \in DOMAIN @ |-> 0]], s.writes), Len(s.reqs),
             Settled("init", s.inits, "done") \cup Settled("avail", WaitingFor(s), "yes"))
Answer(k, how) == CASE how = "refused" -> "failed"
                    [] how = "empty" -> (CASE k = "read" -> "none" [] k = "check" -> "no" [] OTHER -> "done")
                    [] how = "ok" -> (CASE k = "read" -> "store" [] k = "check" -> "yes" [] OTHER -> "done")
(* a reply to request i, whether or not it is still open *)
Reply(i, how, genuine) ==
  /\ LET a == [n |-> "reply", i |-> i, how |-> how, genuine |-> genuine]
         r == s.reqs[i] IN
     IF genuine # "yes" \/ r.left = 0 THEN Same(a, s, {})
     ELSE Same(a, [s EXCEPT !.reqs[i].left = 0, !.writes = IF r.kind = "write" /\ how # "refused" THEN SelectSeq(@, LAMBDA e : e # r.e) ELSE @],
               IF r.kind = "write" THEN {} ELSE {[w |-> "req", i |-> i, r |-> Answer(r.kind, how)]})
Noise(k) == s.made > 0 /\ Same([n |-> "noise", k |-> k], s, {})
Queue(st, e) == [st EXCEPT !.writes = IF \E j \in DOMAIN @ : @[j] = e THEN @ ELSE Append(@, e)]
Write(e) == IF s.destroyed THEN Same([n |-> "write", e |-> e], s, {})
            ELSE LET st == Queue(s, e) IN Do([n |-> "write", e |-> e], IF s.available THEN SendAll(st, <<e>>) ELSE st, Len(s.reqs), {})
Flush == Do([n |-> "flush"], IF s.available THEN SendAll(s, s.writes) ELSE s, Len(s.reqs), {})
(* requests which cannot be made now fail at once *)
Ask(kind) == IF s.available THEN Do([n |-> "ask", kind |-> kind], [s EXCEPT !.reqs = Append(@, Req(kind, 0, Len(@) + 1))], Len(s.reqs), {})
             ELSE Same([n |-> "ask", kind |-> kind], s, Settled("req", {0}, "failed"))
Await(ms) ==
  LET i == Len(s.waits) + 1
      a == [n |-> "await", ms |-> ms]
      st == [s EXCEPT !.waits = Append(@, 0)] IN
  IF s.destroyed THEN Same(a, st, Settled("avail", {i}, "no"))
  ELSE IF s.available THEN Same(a, st, Settled("avail", {i}, "yes"))
  ELSE Same(a, [s EXCEPT !.waits = Append(@, ms)], {})
Lefts == ({s.reqs[i].left : i \in DOMAIN s.reqs} \cup {s.waits[i] : i \in DOMAIN s.waits} \cup {s.init}) \ {0}
Past(st, d) ==
  LET due == {i \in DOMAIN st.reqs : st.reqs[i].left = d}
      gone == {i \in DOMAIN st.waits : st.waits[i] = d}
      less(x) == IF x = 0 THEN 0 ELSE x - d IN
  [st |-> [st EXCEPT !.init = less(@), !.inits = IF st.init = d THEN {} ELSE @, !.reqs = [i \in DOMAIN @ |-> [@[i] EXCEPT !.left = less(@)]], !.waits = [i \in DOMAIN @ |-> less(@[i])]],
   settled |-> Settled("req", Public(st, due), "failed") \cup Settled("avail", gone, IF st.available THEN "yes" ELSE "no") \cup (IF st.init = d THEN Settled("init", st.inits, "done") ELSE {})]
Wait(d) == (\A x \in Lefts : d <= x) /\ LET r == Past(s, d) IN Same([n |-> "wait", ms |-> d], r.st, r.settled)
(* the document gets its body, and a moment later the frame *)
Body ==
  /\ ~s.body /\ \A x \in Lefts : 16 < x
  /\ LET st == [s EXCEPT !.body = TRUE]
         st1 == IF s.started THEN [st EXCEPT !.frame = s.made + 1, !.made = @ + 1] ELSE st
         r == Past(st1, 16) IN
     Same([n |-> "body"], r.st, r.settled)
Destroy == Same([n |-> "destroy"],
  [s EXCEPT !.destroyed = TRUE, !.started = FALSE, !.available = FALSE, !.frame = 0, !.init = 0, !.inits = {}, !.writes = <<>>, !.waits = [i \in DOMAIN @ |-> 0], !.reqs = [i \in DOMAIN @ |-> [@[i] EXCEPT !.left = 0]]],
  Settled("init", s.inits, "done") \cup Settled("avail", WaitingFor(s), "no") \cup Settled("req", Public(s, Open(s)), "failed"))
Genuine == {"yes", "origin", "window"}
Next ==
  \/ Start \/ Body \/ Flush
  \/ \E z \in Pick(1..6) : z = 1 /\ Destroy
  \/ \E g \in Pick(Genuine), f \in Pick({"text", "object"}) : Ready(g, f)
  \/ \E i \in Pick(DOMAIN s.reqs), how \in Pick({"ok", "empty", "refused"}), g \in Pick(Genuine), z \in Pick(1..2) : (s.reqs[i].left > 0 /\ (g = "yes" \/ z = 1)) /\ Reply(i, how, g)
  \/ \E i \in Pick(DOMAIN s.reqs), z \in Pick(1..3) : s.reqs[i].left = 0 /\ z = 1 /\ Reply(i, "ok", "yes")
  \/ \E k \in Pick({"nothing", "unknown", "text"}), z \in Pick(1..4) : z = 1 /\ Noise(k)
  \/ \E e \in Pick(Events) : Write(e)
  \/ \E k \in Pick({"read", "check", "migrate"}) : Ask(k)
  \/ \E ms \in Pick({Limit, 500}) : Await(ms)
  \/ \E d \in Pick(Steps) : Wait(d)
  \/ Lefts # {} /\ Wait(Min(Lefts))
Spec == Init /\ [][Next]_vars
(* ------------------------------------------------------------------ promises - *)
(* what was accepted stays until it is confirmed, or the client is done away with *)
KeptUntilConfirmed == [][\A j \in DOMAIN s.writes : (\E k \in DOMAIN s'.writes : s'.writes[k] = s.writes[j]) \/ act'.n = "destroy"
  \/ (act'.n = "reply" /\ act'.genuine = "yes" /\ act'.how # "refused" /\ s.reqs[act'.i].e = s.writes[j])]_vars
OldestFirst == [][act'.n \in {"flush", "ready"} /\ obs'.posted # <<>> => [j \in DOMAIN obs'.posted |-> obs'.posted[j].e] = s.writes]_vars
(* every request that is answered was open, and is answered once *)
AnsweredOnce == [][\A x \in obs'.settled_set : x.w = "req" /\ x.i > 0 => s.reqs[x.i].left > 0 /\ s'.reqs[x.i].left = 0]_vars
TrustsItsFrameOnly == [][act'.n \in {"noise"} \/ (act'.n \in {"ready", "reply"} /\ act'.genuine # "yes") => s' = s /\ obs'.settled_set = {} /\ obs'.posted = <<>>]_vars
NothingAfterDestroy == s.destroyed => s.writes = <<>> /\ Open(s) = {} /\ WaitingFor(s) = {} /\ s.inits = {} /\ ~s.available
SendsOnlyWhenAvailable == [][obs'.posted # <<>> => s'.available]_vars
===============================================================================
