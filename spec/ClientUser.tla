----------------------------- MODULE ClientUser -----------------------------
(* Who the client thinks the user is: the explicitly set user, the user       *)
(* provider and the integration, merged for requests and evaluation; requests *)
(* wait for the integration; objects of the caller are not the client's.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS
  UserVals,   \* the users that may be given: [Fields -> {"~","nil",...}]
  Fields,     \* e.g. "uid", "did", "lib" and properties "p1", "p2"
  Props,      \* those of Fields that are user properties
  Handles,    \* objects held by the caller
  MaxInt,     \* integrations added, at most
  MaxWait,    \* fetches waiting at once, at most
  MutVals,    \* values the caller writes into its objects
  Configs,    \* [web: BOOLEAN]
  Acts
Pick(S) == S
None == [f \in {} |-> "~"]          \* no user
Empty == [f \in Fields |-> "~"]
U(x) == IF x = None THEN Empty ELSE x

VARIABLES cfg, s, act, obs
vars == <<cfg, s, act, obs>>
view == <<cfg, [s EXCEPT !.sent = <<>>, !.calls = <<>>]>>

(* "~" and "nil" (present but null or undefined) lose against anything; among
   the user properties a present null is a value of its own *)
Over(lo, hi) == [f \in Fields |->
   IF f \in Props THEN (IF hi[f] = "~" THEN lo[f] ELSE hi[f])
   ELSE (IF hi[f] \in {"~", "nil"} THEN lo[f] ELSE hi[f])]
Base == [f \in Fields |-> IF f = "lib" THEN "L" ELSE "~"]
IntUser(st) == IF st.cur = 0 THEN Empty ELSE st.int[st.cur].u
Merged(st, u) == Over(Over(Over(Base, st.prov), IntUser(st)), U(u))
Seen(m) == [f \in Fields |-> IF m[f] = "nil" /\ f \notin Props THEN "~" ELSE m[f]]
(* what local evaluation can tell apart: null is like absent *)
Ctx(st) == [f \in Fields |-> LET v == Merged(st, st.user)[f] IN IF v = "nil" THEN "~" ELSE v]

O(st) == [user |-> IF st.user = None THEN "none" ELSE "some", fields |-> U(st.user), ctx |-> Ctx(st), sent |-> st.sent, calls |-> st.calls]
Fresh(st) == [st EXCEPT !.sent = <<>>, !.calls = <<>>]
Do(a, st) == a.n \in Acts /\ act' = a /\ s' = st /\ obs' = O(st) /\ UNCHANGED cfg

IsReady(st) == st.cur = 0 \/ st.ready
(* what a request for u looks like when it leaves now; loading flags sends only
   an identity, and only for web experiments *)
Req(st, r) ==
  LET m == Seen(Merged(st, r.u)) IN
  IF r.kind = "fetch" THEN [kind |-> "fetch", user |-> m]
  ELSE [kind |-> "flags", user |-> [f \in Fields |-> IF cfg.web /\ f \in {"uid", "did"} THEN m[f] ELSE "~"]]
Ask(st, r) ==
  IF IsReady(st) \/ (r.kind = "flags" /\ ~cfg.web)
  THEN [st EXCEPT !.sent = Append(@, Req(st, r))]
  ELSE [st EXCEPT !.waiting = Append(@, r)]
BecomeReady(st) ==
  IF st.ready THEN st
  ELSE LET t == [st EXCEPT !.ready = TRUE] IN
       [t EXCEPT !.waiting = <<>>, !.sent = @ \o [k \in DOMAIN t.waiting |-> Req(t, t.waiting[k])]]

Init ==
  /\ cfg \in Configs
  /\ s = [user |-> None, prov |-> Empty, cur |-> 0, ready |-> FALSE,
          int |-> [i \in 1..MaxInt |-> [st |-> "new", u |-> Empty]],
          waiting |-> <<>>, h |-> [x \in Handles |-> None], sent |-> <<>>, calls |-> <<>>]
  /\ act = [n |-> "init", cfg |-> cfg]
  /\ obs = O(s)

(* the caller's own objects *)
New(x, u) == Do([n |-> "new", h |-> x, u |-> u], [Fresh(s) EXCEPT !.h = [@ EXCEPT ![x] = u]])
Mutate(x, f, v) ==
  /\ s.h[x] # None /\ s.h[x][f] # v
  /\ Do([n |-> "mutate", h |-> x, f |-> f, v |-> v], [Fresh(s) EXCEPT !.h = [@ EXCEPT ![x] = [@ EXCEPT ![f] = v]]])
Get(x) == Do([n |-> "get", h |-> x], [Fresh(s) EXCEPT !.h = [@ EXCEPT ![x] = s.user]])

SetUser(x) == Do([n |-> "set", h |-> x], [Fresh(s) EXCEPT !.user = s.h[x]])
Fetch(x) ==
  /\ Len(s.waiting) < MaxWait
  /\ LET u == s.h[x] IN   \* fetching for no user in particular keeps the user
     Do([n |-> "fetch", h |-> x],
        LET v == IF u = None THEN U(s.user) ELSE u IN
        Ask([Fresh(s) EXCEPT !.user = v], [kind |-> "fetch", u |-> v]))
Start(x, f) ==   \* followed at once by a stop, so that it can be repeated
  /\ Len(s.waiting) + 1 < MaxWait
  /\ LET u == s.h[x]
         a == Ask([Fresh(s) EXCEPT !.user = u], [kind |-> "flags", u |-> u]) IN
     Do([n |-> "start", h |-> x, fetch |-> f],
        IF f THEN Ask([a EXCEPT !.user = U(u)], [kind |-> "fetch", u |-> u]) ELSE a)
Provider(u) == Do([n |-> "provider", u |-> u], [Fresh(s) EXCEPT !.prov = u])
IntegrationUser(i, u) == s.int[i].st # "new" /\ Do([n |-> "intUser", i |-> i, u |-> u], [Fresh(s) EXCEPT !.int = [@ EXCEPT ![i] = [@ EXCEPT !.u = u]]])
Added(st) == Cardinality({i \in 1..MaxInt : st.int[i].st # "new"})
Attach(setup, u) ==
  /\ Added(s) < MaxInt
  /\ LET i == Added(s) + 1
         t == [Fresh(s) EXCEPT
                 !.int = [@ EXCEPT ![i] = [st |-> IF setup THEN "wait" ELSE "done", u |-> u]],
                 !.calls = (IF s.cur = 0 THEN <<>> ELSE <<[c |-> "teardown", i |-> s.cur]>>)
                             \o (IF setup THEN <<[c |-> "setup", i |-> i]>> ELSE <<>>),
                 !.cur = i] IN
     Do([n |-> "attach", setup |-> setup, u |-> u], IF setup THEN t ELSE BecomeReady(t))
Settle(i, ok) ==
  /\ s.int[i].st = "wait"
  /\ LET t == [Fresh(s) EXCEPT !.int = [@ EXCEPT ![i] = [@ EXCEPT !.st = "done"]]] IN
     Do([n |-> "settle", i |-> i, ok |-> ok], IF i = s.cur THEN BecomeReady(t) ELSE t)

Next ==
  \/ \E x \in Handles, u \in Pick(UserVals) : New(x, u)
  \/ \E x \in Pick(Handles), f \in Pick(Fields), v \in Pick(MutVals) : Mutate(x, f, v)
  \/ \E x \in Pick(Handles) : Get(x)
  \/ \E x \in Pick(Handles), z \in Pick(1..2) : SetUser(x)
  \/ \E x \in Pick(Handles) : Fetch(x)
  \/ \E x \in Pick(Handles), f \in Pick(BOOLEAN) : Start(x, f)
  \/ \E u \in Pick(UserVals) : Provider(u)
  \/ \E i \in Pick(1..MaxInt), u \in Pick(UserVals) : IntegrationUser(i, u)
  \/ \E z \in Pick(1..2), b \in Pick(BOOLEAN), u \in Pick(UserVals) : z = 1 /\ Attach(b, u)
  \/ \E i \in Pick(1..MaxInt), ok \in Pick(BOOLEAN) : Settle(i, ok)
Spec == Init /\ [][Next]_vars

(* ---- properties of the design ------------------------------------------------ *)
OnlyTheClientChangesIt == [][ act'.n \in {"new", "mutate", "get", "provider", "attach", "settle", "intUser"} => s'.user = s.user ]_vars
ReadBack == [][ act'.n = "get" => s'.h[act'.h] = s.user ]_vars
ReadyOnce == [][ s.ready => s'.ready ]_vars
NothingWaitsWhenReady == IsReady(s) => (s.waiting = <<>> \/ s.cur = 0)
WaitsForCurrent == [][ (act'.n = "settle" /\ act'.i # s.cur) => obs'.sent = <<>> ]_vars
MutationInvisible == [][ act'.n = "mutate" => obs'.ctx = obs.ctx /\ s'.user = s.user ]_vars
ExplicitWins == \A f \in Fields \ Props : (U(s.user)[f] \notin {"~", "nil"}) => Ctx(s)[f] = s.user[f]
==============================================================================
