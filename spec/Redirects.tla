------------------------------ MODULE Redirects -------------------------------
(* Redirect experiments: where the web client sends the visitor and when not, how *)
(* it notices that a site keeps undoing a redirect, and how the impression of a    *)
(* redirect travels to the page it leads to.                                       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Confs, Addresses, Queries, Hashes, Waits, Acts
VARIABLES s, act, obs
vars == <<s, act, obs>>
view == <<s>>
Pick(S) == S
Range(q) == {q[i] : i \in DOMAIN q}
(* An address: h = host, p = path, q = <<[k, v]>> query in order, f = hash ("" or "#..."),  *)
(* amp = impressions carried in the address, flag -> [v, b] or "no" ("~" for none)          *)
(* A configuration: cookie, url (how impressions cross subdomains), handler ("no", "now",   *)
(* "later"), flags = <<[key, on, to (variant -> address without amp)]>>, where `on` are the  *)
(* pages [h, p] of the experiment; start = assignments                                       *)
Base(u) == [h |-> u.h, p |-> u.p]
C == Confs[s.c]
Flags(c) == Confs[c].flags
Keys(c) == {Flags(c)[i].key : i \in DOMAIN Flags(c)}
FlagAt(c, f) == LET i == CHOOSE i \in DOMAIN Flags(c) : Flags(c)[i].key = f IN Flags(c)[i]
Sends(c, f, v) == v \in DOMAIN FlagAt(c, f).to
(* a site may answer without the slash at the end of a path *)
Bare(p) == IF p = "/2/" THEN "/2" ELSE p
(* query *)
Has(q, k) == \E i \in DOMAIN q : q[i].k = k
Get(q, k) == IF Has(q, k) THEN LET i == CHOOSE i \in DOMAIN q : q[i].k = k /\ \A j \in 1..(i - 1) : q[j].k # k IN q[i].v ELSE "~"
Plain(u) == [h |-> u.h, p |-> u.p, q |-> u.q, f |-> u.f]
(* the visitor's own parameters go along *)
Target(cur, to) == [h |-> to.h, p |-> to.p, q |-> to.q \o SelectSeq(cur.q, LAMBDA e : ~Has(to.q, e.k)), f |-> to.f]
AtDestination(cur, t) == Plain(cur) = t \/ (t.f = "" /\ cur.h = t.h /\ cur.p = t.p /\ cur.q = t.q)
Distinguishing(from, t) == {t.q[i].k : i \in {j \in DOMAIN t.q : Get(from.q, t.q[j].k) # t.q[j].v}}
SamePlace(a, b) == a.h = b.h /\ a.p = b.p /\ a.f = b.f
BackAtSource(cur, m) == SamePlace(cur, m.from) /\ (m.dp = {} \/ \E k \in m.dp : Get(cur.q, k) # Get(m.target.q, k))
MatchesTarget(cur, m) == SamePlace(cur, m.target) /\ \A k \in m.dp : Get(cur.q, k) = Get(m.target.q, k)

(* storages: per host  imps: flag -> [v, b (where it leads)] ; marks: flag -> marker; supp: flags *)
EmptyStore == [imps |-> <<>>, marks |-> <<>>, supp |-> {}]
Put(fn, k, v) == [x \in DOMAIN fn \cup {k} |-> IF x = k THEN v ELSE fn[x]]
Without(fn, ks) == [x \in DOMAIN fn \ ks |-> fn[x]]
Over(lo, hi) == [x \in DOMAIN lo \cup DOMAIN hi |-> IF x \in DOMAIN hi THEN hi[x] ELSE lo[x]]
Here(st) == st.store[st.url.h]
CookieNow(st) == IF st.cookie.left > 0 THEN st.cookie.imps ELSE <<>>
SetCookie(st, imps) == [st EXCEPT !.cookie = IF DOMAIN imps = {} THEN [imps |-> <<>>, left |-> 0] ELSE [imps |-> imps, left |-> 60000]]

(* r = [st, exp (impressions counted), went (navigations asked for), told (custom handler)] *)
Expose(r, f, v) ==
  LET b == Base(r.st.url)
      seen == IF b \in DOMAIN r.st.cache THEN r.st.cache[b] ELSE <<>> IN
  IF f \in DOMAIN seen /\ seen[f] = v THEN r
  ELSE [r EXCEPT !.st.cache = Put(@, b, Put(seen, f, v)), !.exp = Append(@, [f |-> f, v |-> v])]
(* a first visit to an address clears what was counted elsewhere *)
Arrive(r) == IF Base(r.st.url) \in DOMAIN r.st.cache THEN r ELSE [r EXCEPT !.st.cache = Put(<<>>, Base(r.st.url), <<>>)]
Forget(st, fs) ==
  LET s1 == [st EXCEPT !.store[st.url.h].imps = Without(@, fs)] IN
  IF fs = {} \/ ~Confs[st.c].cookie \/ DOMAIN CookieNow(st) = {} THEN s1 ELSE SetCookie(s1, Without(CookieNow(st), fs))
RECURSIVE ExposeAll(_, _, _)
ExposeAll(r, imps, fs) == IF fs = {} THEN r ELSE LET f == CHOOSE f \in fs : TRUE IN ExposeAll(Expose(r, f, imps[f].v), imps, fs \ {f})
(* Impressions kept for a redirect that leads here are counted; others are given half a      *)
(* second, in case the page is on its way there.                                              *)
Fire(r) ==
  LET st == r.st
      cfg == Confs[st.c]
      carried == IF cfg.url THEN st.url.amp ELSE <<>>
      all == Over(Over(IF cfg.cookie THEN CookieNow(st) ELSE <<>>, Here(st).imps), carried)
      here == {f \in DOMAIN all : all[f].b.h = st.url.h /\ Bare(all[f].b.p) = Bare(st.url.p)}
      r1 == [r EXCEPT !.st.url.amp = IF cfg.url THEN <<>> ELSE @]
      r2 == ExposeAll(r1, all, here)
      waiting == [f \in (DOMAIN all \ here) \ DOMAIN st.timers |-> [v |-> all[f].v, due |-> 500]] IN
  [r2 EXCEPT !.st = Forget([@ EXCEPT !.timers = Over(waiting, Without(@, here))], here)]
(* time passes on the page *)
RECURSIVE Deliver(_, _)
Deliver(r, fs) ==
  IF fs = {} THEN r
  ELSE LET f == CHOOSE f \in fs : TRUE
           r1 == Expose(r, f, r.st.timers[f].v) IN
       Deliver([r1 EXCEPT !.st = Forget([@ EXCEPT !.timers = Without(@, {f})], {f})], fs \ {f})
Less(st, ms) ==
  LET left(x) == IF x > ms THEN x - ms ELSE 0 IN
  [st EXCEPT !.timers = [f \in DOMAIN @ |-> [@[f] EXCEPT !.due = left(@)]],
             !.cookie = IF left(@.left) = 0 THEN [imps |-> <<>>, left |-> 0] ELSE [@ EXCEPT !.left = left(@)]]
(* ties within one moment are of different flags: they do not touch each other *)
RECURSIVE Pass(_, _)
Pass(r, ms) ==
  LET due == {f \in DOMAIN r.st.timers : r.st.timers[f].due <= ms} IN
  IF due = {} THEN [r EXCEPT !.st = Less(@, ms)]
  ELSE LET f == CHOOSE f \in due : \A o \in due : r.st.timers[f].due <= r.st.timers[o].due
           d == r.st.timers[f].due IN
       Pass(Deliver([r EXCEPT !.st = Less(@, d)], {f}), ms - d)

(* a redirect may be limited to some of the pages of its experiment *)
Active(st, f, sc) == Base(st.url) \in FlagAt(st.c, f).on /\ (Len(sc) = 0 \/ Base(st.url) \in Range(sc))
RECURSIVE ApplyFrom(_, _)
RECURSIVE Redirect(_, _, _)
RECURSIVE Move(_, _)
(* an address change without a new document; interaction: the visitor did it *)
Move(r, to) ==
  IF to = r.st.url THEN r
  ELSE LET r0 == [r EXCEPT !.st.url = to, !.st.going = FALSE]
           r1 == IF Confs[r.st.c].cookie THEN Fire(Arrive(r0)) ELSE Arrive(Fire(r0)) IN
       ApplyFrom(Fire(r1), 1)
ApplyFrom(r, i) ==
  IF i > Len(Flags(r.st.c)) THEN r
  ELSE LET f == Flags(r.st.c)[i].key
           v == r.st.assign[f]
           r1 == IF v \in {"off", "control"} THEN (IF Active(r.st, f, <<>>) THEN Expose(r, f, v) ELSE r)
                 ELSE IF Sends(r.st.c, f, v) THEN Redirect(r, f, v) ELSE r IN
       ApplyFrom(r1, i + 1)
Apply(r) == ApplyFrom(Fire(Arrive(r)), 1)
Redirect(r, f, v) ==
  LET st == r.st
      cfg == Confs[st.c]
      to == FlagAt(st.c, f).to[v]
      t == Target(st.url, to)
      marks == Here(st).marks
      cross == t.h # st.url.h IN
  IF st.going \/ f \in Here(st).supp \/ ~Active(st, f, to.sc) \/ AtDestination(st.url, t) THEN r
  ELSE IF f \in DOMAIN marks /\ BackAtSource(st.url, marks[f])
       THEN [r EXCEPT !.st.store[st.url.h].supp = @ \cup {f}, !.st.store[st.url.h].marks = Without(@, {f})]
  ELSE LET imp == [v |-> v, b |-> Base(to)]
           s1 == [st EXCEPT !.going = TRUE, !.timers = Without(@, {f}),
                            !.store[st.url.h].imps = Put(@, f, imp),
                            !.store[st.url.h].marks = Put(@, f, [from |-> Plain(st.url), target |-> t, dp |-> Distinguishing(st.url, t), landed |-> FALSE])]
           s2 == IF cross /\ cfg.cookie THEN SetCookie(s1, Put(CookieNow(s1), f, imp)) ELSE s1
           dest == [h |-> t.h, p |-> t.p, q |-> t.q, f |-> t.f, amp |-> IF cross /\ cfg.url THEN Put(<<>>, f, imp) ELSE <<>>] IN
       IF cfg.handler = "no" THEN [r EXCEPT !.st = [s2 EXCEPT !.nav = <<dest>>], !.went = Append(@, dest)]
       ELSE LET r1 == [r EXCEPT !.st = s2, !.told = Append(@, dest)] IN
            IF cross THEN [r1 EXCEPT !.st.nav = <<dest>>, !.went = Append(@, dest)]
            ELSE IF cfg.handler = "now" THEN Move(r1, dest)
            ELSE [r1 EXCEPT !.st.soon = <<dest>>]

(* a new document: whatever an earlier redirect left is settled first *)
RECURSIVE Settle(_, _, _)
Settle(store, cur, fs) ==
  IF fs = {} THEN store
  ELSE LET f == CHOOSE f \in fs : TRUE
           m == store.marks[f]
           drop == [store EXCEPT !.marks = Without(@, {f})] IN
       Settle(IF MatchesTarget(cur, m) THEN (IF m.landed THEN drop ELSE [store EXCEPT !.marks[f].landed = TRUE])
              ELSE IF BackAtSource(cur, m) /\ ~m.landed THEN [drop EXCEPT !.supp = @ \cup {f}]
              ELSE drop, cur, fs \ {f})
NoPage == [url |-> [h |-> "", p |-> "", q |-> <<>>, f |-> "", amp |-> <<>>], going |-> FALSE, timers |-> <<>>, cache |-> <<>>, nav |-> <<>>, soon |-> <<>>, tag |-> FALSE]
Start(st, u, tag) ==
  LET s1 == [x \in DOMAIN st |-> IF x \in DOMAIN NoPage THEN NoPage[x] ELSE st[x]]
      s2 == [s1 EXCEPT !.url = u, !.tag = tag]
      r0 == [st |-> [s2 EXCEPT !.store[u.h] = IF tag THEN Settle(@, u, DOMAIN @.marks) ELSE @], exp |-> <<>>, went |-> <<>>, told |-> <<>>] IN
  IF tag THEN Apply(Fire(r0)) ELSE r0

Obs(r) == [url |-> r.st.url, exp_bag |-> r.exp, went |-> r.went, told |-> r.told, supp_set |-> IF r.st.tag THEN Here(r.st).supp ELSE {}]
Do(a, r) == a.n \in Acts /\ s' = r.st /\ act' = a /\ obs' = Obs(r)
Still(st) == [st |-> st, exp |-> <<>>, went |-> <<>>, told |-> <<>>]
Init == s = [c |-> 0] /\ act = [n |-> "init"] /\ obs = <<>>
On == s.c # 0
Hosts(c) == {a.h : a \in Addresses}
Url(b, q, f) == [h |-> b.h, p |-> b.p, q |-> q, f |-> f, amp |-> <<>>]
Open == ~On /\ \E c \in Pick(DOMAIN Confs), n \in Pick(1..8) :
  LET i == ((n - 1) % Len(Confs[c].start)) + 1
      st == [x \in DOMAIN NoPage \cup {"c", "assign", "store", "cookie"} |-> IF x = "c" THEN c ELSE IF x = "assign" THEN Confs[c].start[i]
             ELSE IF x = "store" THEN [h \in Hosts(c) |-> EmptyStore] ELSE IF x = "cookie" THEN [imps |-> <<>>, left |-> 0] ELSE NoPage[x]] IN
  Do([n |-> "open", conf |-> Confs[c], assign |-> st.assign], Still(st))
(* the visitor enters an address, or reloads *)
Enter == On /\ \E b \in Pick(Addresses), q \in Pick(Queries), f \in Pick(Hashes), z \in Pick(1..6) :
  LET u == IF z = 1 /\ s.url.h # "" THEN s.url ELSE Url(b, q, f) IN
  Do([n |-> "enter", url |-> u], Start(s, u, TRUE))
(* the browser follows the redirect; the site may strip the query, send the visitor back, or  *)
(* have no tag there                                                                            *)
Follow == On /\ s.nav # <<>> /\ \E how \in Pick({"as asked", "as asked", "as asked", "stripped", "sent back", "no tag"}) :
  LET d == s.nav[1]
      u == CASE how = "stripped" -> [d EXCEPT !.q = <<>>, !.amp = <<>>] [] how = "sent back" -> s.url [] OTHER -> d IN
  Do([n |-> "follow", how |-> how, url |-> u], Start(s, u, how # "no tag"))
(* on the page: the application moves, the visitor interacts or goes back, time passes        *)
Push == On /\ s.tag /\ \E b \in Pick({a \in Addresses : a.h = s.url.h}), q \in Pick(Queries), f \in Pick(Hashes), how \in Pick({"push", "replace", "back"}), z \in Pick(1..3) :
  LET u == IF z = 1 THEN [s.url EXCEPT !.q = q] ELSE Url(b, q, f)
      st == IF how = "back" THEN [s EXCEPT !.store[s.url.h].marks = <<>>] ELSE s IN
  Do([n |-> "push", url |-> u, how |-> how], Move(Still(st), u))
Soon == On /\ s.soon # <<>> /\ Do([n |-> "arrive", url |-> s.soon[1]], Move(Still([s EXCEPT !.soon = <<>>]), s.soon[1]))
Touch == On /\ s.tag /\ \E how \in Pick({"pointerdown", "keydown"}) : Do([n |-> "touch", how |-> how], Still([s EXCEPT !.store[s.url.h].marks = <<>>]))
Again == On /\ s.tag /\ Do([n |-> "apply"], Apply(Still(s)))
Wait == On /\ \E ms \in Pick(Waits) : Do([n |-> "wait", ms |-> ms], Pass(Still(s), ms))
(* A handler that moves within the page leads on to the next redirect while the first round of  *)
(* applying goes on: which of several pages another experiment is looked at on is open then, so *)
(* that here none is without a redirect                                                          *)
Wandering == C.handler = "now" /\ Len(Flags(s.c)) > 1
Assign == On /\ \E f \in Pick(Keys(s.c)) : \E v \in Pick(DOMAIN FlagAt(s.c, f).to \cup (IF Wandering THEN {} ELSE {"control", "off"})) :
  s.assign[f] # v /\ Do([n |-> "assign", f |-> f, v |-> v], Still([s EXCEPT !.assign[f] = v]))
Next == Open \/ Enter \/ Follow \/ Push \/ Soon \/ Touch \/ Again \/ Wait \/ Assign
Spec == Init /\ [][Next]_vars
(* what this gives *)
Tagged(st) == st.c # 0 /\ st.tag
Leads(b, u) == b.h = u.h /\ Bare(b.p) = Bare(u.p)
(* nothing kept for this page waits here, except of a redirect under way or to this very page *)
Delivered == Tagged(s) => \A f \in DOMAIN Here(s).imps : Leads(Here(s).imps[f].b, s.url) => s.going \/ f \in DOMAIN Here(s).marks
NotWhenThere == [][act'.n # "init" /\ s.c # 0 => \A i \in DOMAIN obs'.went : Plain(obs'.went[i]) # Plain(obs'.url)]_vars
QueryKept == [][s.c # 0 /\ C.handler # "now" => \A i \in DOMAIN obs'.went : \A e \in Range(obs'.url.q) : Has(obs'.went[i].q, e.k)]_vars
OneAtATime == [][s.c # 0 /\ C.handler # "now" => Len(obs'.went) <= 1 /\ Len(obs'.told) <= 1]_vars
SuppressedStays == [][s.c # 0 => \A h \in DOMAIN s.store : /\ s.store[h].supp \subseteq s'.store[h].supp
                                                          /\ \A f \in s.store[h].supp : f \in DOMAIN s'.store[h].marks => f \in DOMAIN s.store[h].marks]_vars
LoopBroken == [][act'.n = "follow" /\ act'.how = "sent back" => \A f \in DOMAIN Here(s).marks :
                 LET m == Here(s).marks[f] IN ~m.landed /\ BackAtSource(s.url, m) /\ ~MatchesTarget(s.url, m) => f \in s'.store[s.url.h].supp]_vars
(* an impression is counted only of a flag sent off before, or met without a redirect *)
OnlyStored == [][s.c # 0 /\ act'.n \in {"wait", "touch", "assign"} => \A i \in DOMAIN obs'.exp_bag : obs'.exp_bag[i].f \in DOMAIN s.timers]_vars
===============================================================================
