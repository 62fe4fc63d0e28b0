--------------------------- MODULE AmplitudeClients ---------------------------
(* Clients made by the factory, several of them, connected to the analytics    *)
(* connector of their instance name: which client is returned, whose identity  *)
(* it uses and when, where its exposures go, what persisted identity is read.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS
  Names, Keys,      \* instance names, API keys ("c..." are deployment keys)
  Webs,             \* {FALSE}, or both
  Ids,              \* identities [u, d, p] the analytics SDK may set
  PerIds,           \* what it may have persisted: [u, d], u = "bad": unreadable
  MaxClients, MaxQ, Steps, Acts
Pick(S) == S
Srcs == <<"cookie", "old", "local", "session">>
Nobody == [u |-> "~", d |-> "~", p |-> "~"]
Absent == [u |-> "none", d |-> "~"]
Analytics(k) == k \in {"k1", "k2"}
Wait0 == 10000
IdsKey == Names \X Keys \X Webs
VARIABLES s, act, obs
vars == <<s, act, obs>>
Quiet(st) == [st EXCEPT !.sent = <<>>, !.got = <<>>, !.res = 0]
view == Quiet(s)

(* a client: ready = its integration (if any) is; left = until it stops waiting *)
Fresh(st) == Quiet(st)
N(st) == Len(st.cl)
Of(st, k) == {i \in 1..N(st) : st.cl[i].name = k[1] /\ st.cl[i].key = k[2] /\ st.cl[i].web = k[3]}
IdOf(st, i) == IF st.cl[i].amp THEN st.id[st.cl[i].name] ELSE Nobody
Slot(st, i) == <<st.cl[i].name, st.cl[i].key, st.cl[i].web>>
(* a request leaves now, and is answered with something new *)
Sent(st, i) ==
  [st EXCEPT !.sent = Append(@, [c |-> i, id |-> IdOf(st, i), key |-> st.cl[i].key]),
             !.n = (@ + 1) % 4, !.store = [@ EXCEPT ![Slot(st, i)] = st.n]]
RECURSIVE SentK(_, _, _)
SentK(st, i, k) == IF k = 0 THEN st ELSE SentK(Sent(st, i), i, k - 1)
Fetch(st, i) == IF st.cl[i].ready THEN Sent(st, i) ELSE [st EXCEPT !.cl = [@ EXCEPT ![i] = [@ EXCEPT !.fetches = @ + 1]]]

(* exposures waiting, by instance name *)
(* a receiver may fail: it has not taken what it was given then *)
Takes(st, nm) == st.recv[nm] /\ ~st.balk[nm]
Deliver(st, nm) == [st EXCEPT !.got = @ \o [j \in DOMAIN st.q[nm] |-> [name |-> nm, ev |-> st.q[nm][j]]], !.q = [@ EXCEPT ![nm] = <<>>]]
Flush(st, i) ==
  LET nm == st.cl[i].name IN
  IF st.cl[i].amp /\ st.cl[i].ready /\ st.q[nm] # <<>> /\ Takes(st, nm)
  THEN [Deliver(st, nm) EXCEPT !.polls = SelectSeq(@, LAMBDA x : x # i)]
  ELSE st
Ready(st, i) ==
  IF st.cl[i].ready THEN st
  ELSE LET k == st.cl[i].fetches
           t == [st EXCEPT !.cl = [@ EXCEPT ![i] = [@ EXCEPT !.ready = TRUE, !.fetches = 0, !.left = 0]],
                           !.polls = Append(@, i)] IN
       SentK(Flush(t, i), i, k)
(* the identity on connector nm changed: whoever waits for it has it, whoever
   follows it fetches again; oldest client first *)
RECURSIVE Tell(_, _, _)
Tell(st, nm, i) ==
  IF i > N(st) THEN st
  ELSE IF st.cl[i].name # nm \/ ~st.cl[i].amp THEN Tell(st, nm, i + 1)
  ELSE LET a == IF st.cl[i].auto THEN Fetch(st, i) ELSE st IN Tell(Ready(a, i), nm, i + 1)
Identity(st, nm, id) == IF st.id[nm] = id THEN st ELSE Tell([st EXCEPT !.id = [@ EXCEPT ![nm] = id]], nm, 1)

Readable(st, k, x) == st.pers[k][x].u \notin {"none", "bad"}
Persisted(st, k) ==
  LET ok == {j \in 1..4 : Readable(st, k, Srcs[j])} IN
  IF ~Analytics(k) \/ ok = {} THEN Absent
  ELSE st.pers[k][Srcs[CHOOSE j \in ok : \A l \in ok : j <= l]]

(* left out: which of several clients of one instance hands over what is queued
   when they do so at the same moment (it decides whose redelivery timer stops) *)
Due(st, nm) == st.q[nm] # <<>> /\ Takes(st, nm)
NoTie(st, nm, extra) == ~Due(st, nm) \/ Cardinality({i \in 1..N(st) : st.cl[i].name = nm /\ ~st.cl[i].ready}) + extra < 2
NoPollTie(st) == \A nm \in Names : ~Due(st, nm) \/ Cardinality({j \in DOMAIN st.polls : st.cl[st.polls[j]].name = nm}) < 2

O(st) == [res |-> st.res, n |-> N(st), sent |-> [i \in 1..N(st) |-> SelectSeq(st.sent, LAMBDA r : r.c = i)], got |-> st.got,
          stored |-> [i \in 1..N(st) |-> st.store[Slot(st, i)]]]
Do(a, st) == a.n \in Acts /\ act' = a /\ s' = st /\ obs' = O(st)

Init ==
  /\ s = [cl |-> <<>>, id |-> [x \in Names |-> Nobody], recv |-> [x \in Names |-> FALSE], balk |-> [x \in Names |-> FALSE],
          q |-> [x \in Names |-> <<>>], polls |-> <<>>, n |-> 0, web |-> 0,
          store |-> [k \in IdsKey |-> -1],
          pers |-> [k \in Keys |-> [x \in {"cookie", "old", "local", "session"} |-> Absent]],
          sent |-> <<>>, got |-> <<>>, res |-> 0]
  /\ act = [n |-> "init"] /\ obs = O(s)

(* the application asks for a client *)
Make(nm, key, w, amp, auto) ==
  LET k == <<nm, key, w>>
      a == [n |-> "make", name |-> nm, key |-> key, web |-> w, amp |-> amp, auto |-> auto]
      t == Fresh(s) IN
  IF Of(s, k) # {} THEN Do(a, [t EXCEPT !.res = CHOOSE i \in Of(s, k) : TRUE])
  ELSE /\ N(s) < MaxClients /\ NoTie(s, nm, 1)
       /\ LET i == N(s) + 1
              pid == Persisted(t, key)
              \* what was persisted is the identity, before the client exists
              t1 == IF amp /\ pid.u # "none"
                    THEN Identity(t, nm, [t.id[nm] EXCEPT !.d = pid.d, !.u = IF pid.u = "~" THEN @ ELSE pid.u])
                    ELSE t
              known == t1.id[nm].u # "~" \/ t1.id[nm].d # "~"
              c == [name |-> nm, key |-> key, web |-> w, amp |-> amp, auto |-> auto /\ amp,
                    ready |-> ~amp, left |-> IF amp /\ ~known THEN Wait0 ELSE 0, fetches |-> 0]
              t2 == [t1 EXCEPT !.cl = Append(@, c), !.res = i] IN
          Do(a, IF amp /\ known THEN Ready(t2, i) ELSE t2)
SetId(nm, id) == NoTie(s, nm, 0) /\ Do([n |-> "identity", name |-> nm, id |-> id], Identity(Fresh(s), nm, id))
Receiver(nm) == Do([n |-> "receiver", name |-> nm], [Fresh(s) EXCEPT !.recv = [@ EXCEPT ![nm] = TRUE]])
Balk(nm, b) == s.recv[nm] /\ s.balk[nm] # b /\ Do([n |-> "balk", name |-> nm, on |-> b], [Fresh(s) EXCEPT !.balk = [@ EXCEPT ![nm] = b]])
Expose(i) ==
  LET nm == s.cl[i].name IN
  /\ Len(s.q[nm]) < MaxQ
  /\ Do([n |-> "expose", c |-> i],
        Flush([Fresh(s) EXCEPT !.q = [@ EXCEPT ![nm] = Append(@, s.web)], !.web = (@ + 1) % 4], i))
FetchA(i) == s.cl[i].fetches < 2 /\ Do([n |-> "fetch", c |-> i], Fetch(Fresh(s), i))
Persist(k, x, v) == (x = "old" => (v.d # "~" \/ v.u \in {"none", "bad"})) /\ Do([n |-> "persist", key |-> k, src |-> x, v |-> v], [Fresh(s) EXCEPT !.pers = [@ EXCEPT ![k] = [@ EXCEPT ![x] = v]]])
Reload ==
  Do([n |-> "reload"], [Fresh(s) EXCEPT !.cl = <<>>, !.polls = <<>>, !.id = [x \in Names |-> Nobody], !.recv = [x \in Names |-> FALSE], !.balk = [x \in Names |-> FALSE]])

(* time: multiples of a second; every poller ticks at least once before anyone
   stops waiting *)
RECURSIVE Ticks(_, _)
Ticks(st, ps) == IF ps = <<>> THEN st ELSE Ticks(Flush(st, Head(ps)), Tail(ps))
RECURSIVE Expire(_, _)
Expire(st, i) ==
  IF i > N(st) THEN st
  ELSE IF st.cl[i].ready \/ st.cl[i].left > 0 THEN Expire(st, i + 1) ELSE Expire(Ready(st, i), i + 1)
Wait(d) ==
  /\ \A i \in 1..N(s) : s.cl[i].ready \/ s.cl[i].left >= d
  /\ NoPollTie(s) /\ \A nm \in Names : NoTie(s, nm, 0)
  /\ LET t == Ticks(Fresh(s), s.polls)
         u == [t EXCEPT !.cl = [i \in DOMAIN t.cl |-> IF t.cl[i].ready THEN t.cl[i] ELSE [t.cl[i] EXCEPT !.left = @ - d]]] IN
     Do([n |-> "wait", ms |-> d], Expire(u, 1))

Cl == 1..N(s)
Next ==
  \/ \E nm \in Pick(Names), k \in Pick(Keys), w \in Pick(Webs), a \in Pick({TRUE, TRUE, FALSE}), b \in Pick(BOOLEAN) : Make(nm, k, w, a, b)
  \/ \E nm \in Pick(Names), id \in Pick(Ids) : SetId(nm, id)
  \/ \E nm \in Pick(Names) : Receiver(nm)
  \/ \E nm \in Pick(Names), b \in BOOLEAN : Balk(nm, b)
  \/ \E i \in Pick(Cl) : Expose(i)
  \/ \E i \in Pick(Cl) : FetchA(i)
  \/ \E k \in Pick(Keys), x \in Pick({"cookie", "old", "local", "session"}), v \in Pick(PerIds) : Persist(k, x, v)
  \/ \E d \in Pick(Steps) : Wait(d)
  \/ \E z \in Pick(1..8) : z = 1 /\ Reload
Spec == Init /\ [][Next]_vars

(* ---- properties of the design ------------------------------------------------ *)
OnePerKey == \A i, j \in Cl : i # j => Slot(s, i) # Slot(s, j)
OwnBridgeOnly == [][ \A j \in DOMAIN obs'.got : s'.recv[obs'.got[j].name] ]_vars
WaitingHoldsBack == [][ \A i \in 1..N(s') : (~s'.cl[i].ready) => obs'.sent[i] = <<>> ]_vars
WaitBounded == \A i \in Cl : ~s.cl[i].ready => s.cl[i].left \in 1..Wait0
DeploymentKeysReadNothing == [][ (act'.n = "make" /\ ~Analytics(act'.key)) => s'.id = s.id ]_vars
==============================================================================
