----------------------------- MODULE RemoteFlags -----------------------------
(* Which flags the tag goes by from page load to page load: built into the script,    *)
(* kept from before in this session, or served; which experiments wait for the        *)
(* server, or for the visitor's identity; and how long the page is hidden meanwhile.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Confs, Servers, Urls, Waits, Acts
VARIABLES s, act, obs
vars == <<s, act, obs>>
view == <<s>>
Pick(S) == S
Range(q) == {q[i] : i \in DOMAIN q}
(* A set of flags: sequence of [k, mode, val, dep, block]; val: a b off | none | user (a once   *)
(* the visitor is known) | dep (a where the flag dep has a). Confs: [flags, hold, at]:        *)
(* at = sequence of <<k, path>>, the experiments which only run on one page                  *)
None == [k |-> "", mode |-> "none", val |-> "none", dep |-> "", block |-> FALSE]
Keys(q) == {x.k : x \in Range(q)}
Get(q, k) == IF k \in Keys(q) THEN CHOOSE x \in Range(q) : x.k = k ELSE None
Over(q, base) == q \o SelectSeq(base, LAMBDA x : x.k \notin Keys(q))
RECURSIVE Eval(_, _, _)
Eval(E, k, known) ==
  LET f == Get(E, k) IN
  CASE f.val = "user" -> IF known THEN "a" ELSE "off"
    [] f.val = "dep" -> IF Eval(E, f.dep, known) = "a" THEN "a" ELSE "off"
    [] OTHER -> f.val
Built(c) == Confs[c].flags
RECURSIVE Reach(_, _)
Reach(q, R) == LET more == R \cup {x.k : x \in {y \in Range(q) : y.dep \in R}} IN IF more = R THEN R ELSE Reach(q, more)
Remote0(c) == {x.k : x \in {y \in Range(Built(c)) : y.mode # "local"}}
Remote(c) == Reach(Built(c), Remote0(c))
Local(c, E) == {k \in Keys(E) : Get(E, k).mode = "local" /\ Eval(E, k, FALSE) # "none"} \ (Remote(c) \ Remote0(c))
Active(c, k, u) == k \in Keys(Built(c)) \cup {"x"} /\ \A p \in Range(Confs[c].at) : p[1] = k => p[2] = u
(* apply: what is on screen afterwards, and what is counted *)
Apply(st, K) ==
  LET kept == IF st.countedAt = st.url THEN st.counted ELSE <<>>
      v(k) == Eval(st.E, k, st.known)
      here == {k \in K : Active(st.c, k, st.url)}
      news == {k \in here : v(k) \in {"a", "b", "off"} /\ ~(k \in DOMAIN kept /\ kept[k] = v(k))} IN
  [st EXCEPT !.shown = {x \in @ : x[1] \notin K} \cup {<<k, v(k)>> : k \in {j \in here : v(j) \in {"a", "b"}}},
             !.countedAt = st.url, !.counted = TLCEval([k \in DOMAIN kept \cup news |-> IF k \in news THEN v(k) ELSE kept[k]]),
             !.pend = @ \cup {<<k, v(k), Cardinality({x \in @ : x[1] = k /\ x[2] = v(k)})>> : k \in news}]
All(st) == Local(st.c, st.E0) \cup Remote(st.c)
Waiting(st) == Remote(st.c) \ Local(st.c, st.E0)
(* r = [st, calls] *)
Still == [st |-> s, calls |-> 0]
Fetch(r) == IF r.st.known THEN [st |-> [r.st EXCEPT !.phase = "fetch", !.left = 1000], calls |-> r.calls + 1] ELSE [r EXCEPT !.st.phase = "ident"]
LocalPart(r) ==
  LET st == Apply(r.st, Local(r.st.c, r.st.E0)) IN
  IF Remote(st.c) = {} THEN [r EXCEPT !.st = [st EXCEPT !.phase = "running"]] ELSE Fetch([r EXCEPT !.st = st])
Finish(r, E, stored) ==
  LET st == [r.st EXCEPT !.E = E, !.stored = stored, !.phase = "running", !.left = -1, !.hide = -1] IN
  [r EXCEPT !.st = Apply(st, Remote(st.c))]
Failed(r) == Finish(r, r.st.E, r.st.stored)
Known(r) == LET r1 == [r EXCEPT !.st.known = TRUE] IN
            CASE r.st.phase = "hold" -> LocalPart(r1) [] r.st.phase = "ident" -> Fetch(r1) [] OTHER -> r1
Less(t, d) == IF t > 0 THEN t - d ELSE t
Elapse(st, d) == [st EXCEPT !.hide = Less(@, d), !.left = Less(@, d)]
RECURSIVE Pass(_, _)
Pass(r, ms) ==
  LET due == {t \in {r.st.hide, r.st.left} : t > 0 /\ t <= ms} IN
  IF due = {} THEN [r EXCEPT !.st = Elapse(@, ms)]
  ELSE LET d == CHOOSE d \in due : \A o \in due : d <= o
           r1 == [r EXCEPT !.st = Elapse(@, d)]
           r2 == IF r.st.hide = d THEN [r1 EXCEPT !.st.hide = -1] ELSE r1 IN
       Pass(IF r.st.left = d THEN Failed(r2) ELSE r2, ms - d)
Do(a, r) ==
  LET sent == IF r.st.known THEN {<<x[1], x[2]>> : x \in r.st.pend} ELSE {} IN
  /\ a.n \in Acts /\ act' = a
  /\ s' = IF r.st.known THEN [r.st EXCEPT !.pend = {}] ELSE r.st
  /\ obs' = [shown_set |-> r.st.shown, exp_set |-> sent, calls |-> r.calls, running |-> r.st.phase = "running", hidden |-> r.st.hide > 0]
Init == s = [c |-> 0, stored |-> <<>>, pend |-> {}] /\ act = [n |-> "init"] /\ obs = <<>>
On == s.c # 0
Load == s.pend = {} /\ \E c \in Pick(DOMAIN Confs), u \in Pick(Urls), slow \in Pick(BOOLEAN) :
  LET E == Over(s.stored, Built(c))
      block == \E k \in Remote(c) : Active(c, k, u) /\ Get(E, k).block /\ Eval(E, k, FALSE) # "none"
      st == [c |-> c, stored |-> s.stored, E0 |-> E, E |-> E, url |-> u, known |-> ~slow, phase |-> "hold", shown |-> {}, counted |-> <<>>, countedAt |-> "", pend |-> {},
             hide |-> IF block THEN 1000 ELSE -1, left |-> -1]
      r == [st |-> st, calls |-> 0] IN
  Do([n |-> "load", conf |-> Confs[c], url |-> u, slow |-> slow], IF Confs[c].hold /\ slow THEN r ELSE LocalPart(r))
Identity == On /\ ~s.known /\ Do([n |-> "identity"], Known(Still))
Served == On /\ s.phase = "fetch" /\ \E i \in Pick(DOMAIN Servers), how \in Pick({"ok", "ok", "ok", "500", "down"}) :
  Do([n |-> "flags", how |-> how, flags |-> Servers[i]], IF how = "ok" THEN Finish(Still, Over(Servers[i], Built(s.c)), Servers[i]) ELSE Failed(Still))
Nav == On /\ \E u \in Pick(Urls) : u # s.url /\
  LET st == [s EXCEPT !.url = u] IN
  Do([n |-> "nav", url |-> u], [Still EXCEPT !.st = IF s.phase = "hold" THEN st ELSE Apply(st, IF s.phase = "running" THEN All(st) ELSE All(st) \ Waiting(st))])
Wait == On /\ \E ms \in Pick(Waits) : Do([n |-> "wait", ms |-> ms], Pass(Still, ms))
Next == Load \/ Identity \/ Served \/ Nav \/ Wait
Spec == Init /\ [][Next]_vars
(* what this gives *)
ServerFirst == On /\ s.phase \in {"hold", "ident", "fetch"} => \A x \in s.shown \cup {<<p[1], p[2]>> : p \in s.pend} : x[1] \notin Waiting(s)
HoldsForIdentity == On /\ Confs[s.c].hold /\ ~s.known => s.shown = {} /\ s.pend = {}
HiddenBriefly == On => s.hide <= 1000 /\ (s.phase = "running" => s.hide <= 0)
OnlyServedStored == [][s'.stored = s.stored \/ (act'.n = "flags" /\ act'.how = "ok" /\ s'.stored = act'.flags)]_vars
Fresh == On /\ s.phase = "running" /\ s.stored # <<>> => \A k \in Keys(s.stored) \cap Remote(s.c) : Get(s.E, k) = Get(s.stored, k)
Shows == On => \A x \in s.shown : Active(s.c, x[1], s.url) \/ s.phase = "hold"
===============================================================================
