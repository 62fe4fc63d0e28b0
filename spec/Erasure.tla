------------------------------- MODULE Erasure --------------------------------
(* What a refusal of consent erases from the visitor's device, on the origin it  *)
(* is given on and, through the shared cookie domain, on the sibling subdomains;  *)
(* and what stays.                                                               *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Sites, Keys, Insts, MaxIds, Acts
VARIABLES s, act, obs
vars == <<s, act, obs>>
view == <<s>>
Pick(S) == S
Range(q) == {q[i] : i \in DOMAIN q}
(* Sites: sequence of sites, a site a sequence of hosts [h, lv, refused]: the domain     *)
(* levels of the host, registrable first, and those the browser takes no cookie for.     *)
SiteHosts(t) == Range(Sites[t])
HostOf(t, h) == CHOOSE x \in SiteHosts(t) : x.h = h
Levels(t, h) == Range(HostOf(t, h).lv)
Accepted(t, h) == SelectSeq(HostOf(t, h).lv, LAMBDA d : d \notin HostOf(t, h).refused)

(* A thing on the device: w = where ("local", "session": at = host; "host": a cookie of    *)
(* that host alone; "domain": a cookie of a domain), n = what, k = API key, i = instance,  *)
(* x = days until it expires (0: does not)                                                *)
Thing(w, at, n, k, i, x) == [w |-> w, at |-> at, n |-> n, k |-> k, i |-> i, x |-> x]
LocalOfKey == {"id", "dup", "events", "mktg"}
LocalOfInst == {"unsent"}
SessOfKey == {"dup", "redirect", "marker", "suppressed"}
SessOfBoth == {"cache", "flags", "options"}
SessOfInst == {"sent3", "sent2", "sent1"}
CookieOfKey == {"identity", "session", "mktg", "redirect"}
(* things of others, and of this application that a refusal is not about *)
ForeignLocal == {"other", "unsent-elsewhere"}
ForeignSess == {"other", "sdk-cache", "preview"}
ForeignCookie == {"other", "analytics-mktg"}
Scopes(t, h) == {<<"host", h>>} \cup {<<"domain", d>> : d \in Levels(t, h)}
Own(t, h, k, i) ==
  {Thing("local", h, n, k, "", 0) : n \in LocalOfKey} \cup {Thing("local", h, n, "", i, 0) : n \in LocalOfInst}
  \cup {Thing("session", h, n, k, "", 0) : n \in SessOfKey} \cup {Thing("session", h, n, k, i, 0) : n \in SessOfBoth}
  \cup {Thing("session", h, n, "", i, 0) : n \in SessOfInst}
  \cup {Thing(c[1], c[2], n, k, "", 0) : c \in Scopes(t, h), n \in CookieOfKey}
Base(x) == [x EXCEPT !.x = 0]
InOwn(x, t, h, k, i) == Base(x) \in Own(t, h, k, i)
(* cookies the documents of a host see *)
Sees(t, h, x) == x.w \in {"host", "domain"} /\ <<x.w, x.at>> \in Scopes(t, h)
SeesNamed(st, h, n, k) == \E x \in st.dev : Sees(st.t, h, x) /\ x.n = n /\ x.k = k

Sweep(st, h, k, i) ==
  [st EXCEPT !.dev = {x \in @ : ~InOwn(x, st.t, h, k, i)}, !.may = {x \in @ : ~InOwn(x, st.t, h, k, i)},
             !.lid[h][k] = [v1 |-> 0, v2 |-> 0],
             !.cid = [c \in DOMAIN @ |-> IF c[1] = k /\ c[2] \in Scopes(st.t, h) THEN 0 ELSE @[c]]]
(* The refusal is written down at the first domain that takes it, for a year. A level that *)
(* refuses looks written when an earlier mark is in sight.                                *)
Mark(st, h, k) ==
  LET lv == HostOf(st.t, h).lv
      seen == SeesNamed(st, h, "erased", k)
      at == SelectSeq(lv, LAMBDA d : d \notin HostOf(st.t, h).refused) IN
  IF at = <<>> \/ (seen /\ lv[1] \in HostOf(st.t, h).refused) THEN st
  ELSE [st EXCEPT !.dev = {x \in @ : ~(x.w = "domain" /\ x.at = at[1] /\ x.n = "erased" /\ x.k = k)} \cup {Thing("domain", at[1], "erased", k, "", 365)}]
Refuse(st, h, k, i) == Mark(Sweep(st, h, k, i), h, k)

(* things a running client comes to write, or to take away, on its own business *)
Ungated(h, k, i) ==
  {Thing("local", h, "dup", k, "", 0), Thing("local", h, "unsent", "", i, 0), Thing("session", h, "dup", k, "", 0)}
  \cup {Thing("session", h, n, k, i, 0) : n \in SessOfBoth} \cup {Thing("session", h, n, "", i, 0) : n \in SessOfInst}
Busy(t, h, k, i) ==
  Ungated(h, k, i) \cup {Thing("session", h, "redirect", k, "", 0)}
  \cup {Thing(c[1], c[2], n, k, "", 0) : c \in Scopes(t, h), n \in {"session", "redirect"}}
Adds(h, k, i) == {Thing("local", h, n, k, "", 0) : n \in {"events", "mktg"}} \cup {Thing("session", h, n, k, "", 0) : n \in {"marker", "suppressed"}}
Stir(st, some) == [st EXCEPT !.may = {x \in @ : Base(x) \notin some} \cup some, !.dev = {x \in @ : Base(x) \notin some}]

(* the identity cookie in sight, wherever it is: seeds keep to one at a time *)
CookieId(st, h, k) == LET c == {<<k, x>> : x \in Scopes(st.t, h)} IN
  IF \E y \in c : st.cid[y] # 0 THEN st.cid[CHOOSE y \in c : st.cid[y] # 0] ELSE 0
RootScope(st, h) == LET a == Accepted(st.t, h) IN IF a = <<>> THEN <<"host", h>> ELSE <<"domain", a[1]>>
Run(st0, h, k, i) ==
  LET st == IF SeesNamed(st0, h, "erased", k) /\ CookieId(st0, h, k) = 0 THEN Sweep(st0, h, k, i) ELSE st0
      l == st.lid[h][k]
      v1 == IF l.v1 # 0 THEN l.v1 ELSE st.ids + 1
      ids == IF l.v1 # 0 THEN st.ids ELSE st.ids + 1
      c == CookieId(st, h, k)
      v2 == IF c # 0 THEN c ELSE IF l.v2 # 0 THEN l.v2 ELSE v1
      root == RootScope(st, h)
      idThing == Thing(root[1], root[2], "identity", k, "", 365)
      s1 == Stir(st, Busy(st.t, h, k, i))
      adds == {x \in Adds(h, k, i) : x \notin s1.dev}
      must == {Thing("local", h, "id", k, "", 0), Thing("local", h, "dup", k, "", 0)}
      events == Thing("local", h, "events", k, "", 0)
      unsent == Thing("local", h, "unsent", "", i, 0) IN
  [s1 EXCEPT !.dev = (@ \cup must) \cup (IF c = 0 THEN {idThing} ELSE {}), !.may = (@ \ must) \cup adds,
             !.lid[h][k] = [v1 |-> v1, v2 |-> v2], !.cid = IF c = 0 THEN [@ EXCEPT ![<<k, root>>] = v2] ELSE @, !.ids = ids,
             !.page = [@ EXCEPT !.ran = TRUE],
             !.who = [v1 |-> v1, v2 |-> v2, recalls |-> IF events \in st.dev THEN "yes" ELSE IF events \in st.may THEN "*" ELSE "no",
                      resent |-> IF unsent \in st.dev THEN "yes" ELSE IF unsent \in st.may THEN "*" ELSE "no"]]

NoWho == [v1 |-> 0, v2 |-> 0, recalls |-> "no", resent |-> "no"]
NoPage == [h |-> "", k |-> "", i |-> "", req |-> FALSE, st |-> "~", ran |-> FALSE]
CookieKeys(t) == {<<k, c>> : k \in Keys, c \in UNION {Scopes(t, x.h) : x \in SiteHosts(t)}}
Fresh(t) == [t |-> t, dev |-> {}, may |-> {}, lid |-> [h \in {x.h : x \in SiteHosts(t)} |-> [k \in Keys |-> [v1 |-> 0, v2 |-> 0]]],
             cid |-> [c \in CookieKeys(t) |-> 0], ids |-> 0, page |-> NoPage, who |-> NoWho]
Obs(st) == [things_between |-> [must |-> {Base(x) : x \in st.dev}, may |-> st.may],
            who |-> IF st.page.ran THEN [v1 |-> st.who.v1, v2 |-> st.who.v2] ELSE [v1 |-> 0, v2 |-> 0],
            recalls |-> IF st.page.ran THEN st.who.recalls ELSE "no", resent |-> IF st.page.ran THEN st.who.resent ELSE "no"]
Init == /\ s = [t |-> 0]
        /\ act = [n |-> "init"]
        /\ obs = <<>>
Do(a, st) == /\ a.n \in Acts
             /\ s' = st
             /\ act' = a
             /\ obs' = Obs(st)
On == s.t # 0
Open == /\ ~On
        /\ \E t \in Pick(DOMAIN Sites) : Do([n |-> "open", site |-> t], Fresh(t))
(* what an earlier visit left on one host *)
Seedable(h, k, i, set) ==
  CASE set = "all" -> {Thing("local", h, n, k, "", 0) : n \in LocalOfKey} \cup {Thing("local", h, n, "", i, 0) : n \in LocalOfInst}
         \cup {Thing("session", h, n, k, "", 0) : n \in SessOfKey} \cup {Thing("session", h, n, k, i, 0) : n \in SessOfBoth} \cup {Thing("session", h, n, "", i, 0) : n \in SessOfInst}
    [] set = "visit" -> {Thing("local", h, n, k, "", 0) : n \in {"id", "events"}} \cup {Thing("session", h, "marker", k, "", 0)}
    [] set = "queue" -> {Thing("local", h, "unsent", "", i, 0), Thing("session", h, "sent3", "", i, 0)}
    [] set = "foreign" -> {Thing("local", h, "other", "", "", 0), Thing("local", h, "unsent-elsewhere", "", "", 0), Thing("session", h, "other", "", "", 0),
         Thing("session", h, "sdk-cache", k, i, 0), Thing("session", h, "preview", "", "", 0)}
Seed == /\ On
        /\ \E h \in Pick({x.h : x \in SiteHosts(s.t)}), k \in Pick(Keys), i \in Pick(Insts), set \in Pick({"all", "visit", "queue", "foreign"}) :
             LET th == Seedable(h, k, i, set)
                 id == Thing("local", h, "id", k, "", 0) \in th IN
             /\ s.ids < MaxIds
             /\ Do([n |-> "seed", h |-> h, k |-> k, i |-> i, things |-> th, id |-> s.ids + 1],
                   [s EXCEPT !.dev = @ \cup th, !.may = @ \ th, !.page = NoPage,
                             !.lid[h][k] = IF id THEN [v1 |-> s.ids + 1, v2 |-> 0] ELSE @, !.ids = IF id THEN @ + 1 ELSE @])
(* cookies an earlier visit left; an identity only where none is in sight of anyone *)
SeedCookies == /\ On
               /\ \E h \in Pick({x.h : x \in SiteHosts(s.t)}), k \in Pick(Keys), w \in Pick({"own", "identity", "foreign"}) :
                  \E c \in Pick({x \in Scopes(s.t, h) : x[1] = "host" \/ x[2] \notin HostOf(s.t, h).refused}) :
                    LET ns == CASE w = "own" -> {"session", "mktg", "redirect"} [] w = "identity" -> {"identity"} [] OTHER -> ForeignCookie
                        th == {Thing(c[1], c[2], n, IF n = "other" THEN "" ELSE k, "", 0) : n \in ns} IN
                    /\ s.ids < MaxIds
                    /\ w = "identity" => c = RootScope(s, h) /\ \A y \in DOMAIN s.cid : y[1] = k => s.cid[y] = 0
                    /\ Do([n |-> "cookies", h |-> h, k |-> k, w |-> c[1], at |-> c[2], things |-> th, id |-> s.ids + 1],
                          [s EXCEPT !.dev = @ \cup th, !.may = @ \ th, !.page = NoPage,
                                    !.cid = IF w = "identity" THEN [@ EXCEPT ![<<k, c>>] = s.ids + 1] ELSE @, !.ids = IF w = "identity" THEN @ + 1 ELSE @])
Statuses == {"granted", "denied", "pending"}
Load == /\ On
        /\ s.ids < MaxIds
        /\ \E h \in Pick({x.h : x \in SiteHosts(s.t)}), k \in Pick(Keys), i \in Pick(Insts), req \in Pick({TRUE, TRUE, FALSE}),
              cfg \in Pick(Statuses \cup {"~"}), before \in Pick({"~", "granted", "denied"}) :
             LET st == IF before # "~" THEN before ELSE IF cfg = "~" THEN "pending" ELSE cfg
                 page == [h |-> h, k |-> k, i |-> i, req |-> req, st |-> st, ran |-> FALSE]
                 s0 == [s EXCEPT !.page = page, !.who = NoWho] IN
             Do([n |-> "load", h |-> h, k |-> k, i |-> i, req |-> req, cfg |-> cfg, before |-> before],
                IF ~req \/ st = "granted" THEN Run(s0, h, k, i)
                ELSE IF st = "denied" THEN Refuse(s0, h, k, i) ELSE s0)
(* The visitor decides on the page. A client that ran keeps running: of what it held back   *)
(* nothing is written, but what it writes whatever was decided comes back.                 *)
Decide == /\ On /\ s.page.h # ""
          /\ s.ids < MaxIds
          /\ \E v \in Pick({"granted", "denied"}) :
               LET p == s.page
                   new == p.st # v
                   s0 == [s EXCEPT !.page.st = v] IN
               /\ ~(p.req /\ p.ran /\ p.st = "denied" /\ v = "granted")
               /\ Do([n |-> "decide", v |-> v],
                     IF ~p.req \/ ~new THEN s0
                     ELSE IF v = "denied" THEN Refuse(s0, p.h, p.k, p.i)
                     ELSE IF p.ran THEN s0 ELSE Run(s0, p.h, p.k, p.i))
Settle == /\ On /\ s.page.ran /\ s.page.req /\ s.page.st = "denied"
          /\ Do([n |-> "settle"], Stir(s, Ungated(s.page.h, s.page.k, s.page.i)))
Wait == /\ On
        /\ \E d \in Pick({200, 400}) :
             LET left(x) == IF x.x = 0 THEN {x} ELSE IF x.x > d THEN {[x EXCEPT !.x = @ - d]} ELSE {}
                 after == UNION {left(x) : x \in s.dev} IN
             Do([n |-> "wait", days |-> d],
                [s EXCEPT !.dev = after, !.page = NoPage,
                          !.may = {x \in @ : TRUE},
                          !.cid = [c \in DOMAIN @ |-> IF @[c] # 0 /\ ~\E x \in after : x.w = c[2][1] /\ x.at = c[2][2] /\ x.n = "identity" /\ x.k = c[1] THEN 0 ELSE @[c]]])
Next == Open \/ Seed \/ SeedCookies \/ Load \/ Decide \/ Settle \/ (\E z \in Pick(1..4) : z = 1 /\ Wait)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Refusal == On' /\ s.t # 0 /\ s'.page.req /\ s'.page.st = "denied" /\ act'.n \in {"load", "decide"} /\ (act'.n = "load" \/ s.page.st # "denied")
(* a refusal leaves nothing of the application within reach of the page, not even possibly *)
Erased == [][Refusal => LET p == s'.page IN \A x \in s'.dev \cup s'.may : ~InOwn(x, s'.t, p.h, p.k, p.i)]_vars
(* and takes nothing else *)
NothingElse == [][Refusal => LET p == s'.page IN \A x \in s.dev : x \in s'.dev \/ InOwn(x, s.t, p.h, p.k, p.i) \/ x.n = "erased"]_vars
(* what belongs to no application is never touched *)
OthersStay == [][On => \A x \in s.dev : x.n \in ForeignLocal \cup ForeignSess \cup ForeignCookie => x \in s'.dev]_vars
(* before a decision nothing changes on the device *)
PendingStill == [][(act'.n \in {"load", "decide"} /\ s.t # 0 /\ s'.page.req /\ s'.page.st = "pending") => s'.dev = s.dev /\ s'.may = s.may]_vars
(* where a refusal is in sight and no identity has been established since, a client starts *)
(* from nothing: no identity from before, no events, no unsent exposures                  *)
NoReturn == [][(On' /\ s.t # 0 /\ act'.n \in {"load", "decide"} /\ s'.page.ran /\ ~(act'.n = "decide" /\ s.page.ran)
                /\ SeesNamed(s, s'.page.h, "erased", s'.page.k) /\ CookieId(s, s'.page.h, s'.page.k) = 0)
               => s'.who = [v1 |-> s.ids + 1, v2 |-> s.ids + 1, recalls |-> "no", resent |-> "no"]]_vars
Consistent == On => \A c \in DOMAIN s.cid : (s.cid[c] # 0) <=> \E x \in s.dev : x.w = c[2][1] /\ x.at = c[2][2] /\ x.n = "identity" /\ x.k = c[1]
=============================================================================
