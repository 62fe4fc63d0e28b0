--------------------------- MODULE VisitorIdentity ---------------------------
(* Who the tag says the visitor is, visit after visit, on the hosts of one site: *)
(* the identifiers it keeps, when it first saw them, and the campaigns that      *)
(* brought them.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Hosts, Shares, Recs, FirstSeens, Cookies, Campaigns, Links, Steps, Damage, Acts
VARIABLES s, act, obs
vars == <<s, act, obs>>
view == <<s>>
Pick(S) == S

(* Identifiers are numbers: 0 none, below 0 left by an earlier version, above 0   *)
(* minted, in order. Times are milliseconds since the beginning; None is no time. *)
None == 0 - 1
Utm == {"source", "medium", "term"}
NoUtm == [k \in Utm |-> ""]
Blank == [dev |-> 0, id |-> 0, v2 |-> 0]
NoCk == [v2 |-> 0, fs |-> None]
NoOne == [id |-> 0, v2 |-> 0, fs |-> None, utm |-> NoUtm]

(* rec: the record of the host, mem: what it remembers of campaigns, fs: the host's *)
(*   first visit; bad: the record cannot be read                                    *)
(* lm, cm: whether storage (of the host) and cookies work; at: the host of the page,  *)
(*   up: whether the tag runs there                                                   *)
(* ck: the identity cookie, of the site if the site's hosts share cookies, else of  *)
(*   the host; mk: what the analytics SDK keeps of campaigns                        *)
Start(sh) == [shared |-> sh, n |-> 0, now |-> 0, rec |-> [h \in Hosts |-> Blank], bad |-> [h \in Hosts |-> FALSE], fs |-> [h \in Hosts |-> None], fsbad |-> [h \in Hosts |-> FALSE],
  mem |-> [h \in Hosts |-> NoUtm], lm |-> [h \in Hosts |-> "ok"], cm |-> "ok", ck |-> [h \in Hosts |-> NoCk], mk |-> NoUtm, up |-> FALSE, at |-> CHOOSE h \in Hosts : TRUE, user |-> NoOne]
Jar(st, h) == IF st.shared THEN CHOOSE x \in Hosts : TRUE ELSE h

Over(a, b) == [k \in Utm |-> IF b[k] # "" THEN b[k] ELSE a[k]]
(* A visit. Without storage that works the tag does not start, and leaves nothing. *)
Visit(st, h, link) ==
  LET r == IF st.bad[h] THEN Blank ELSE st.rec[h]
      mint == r.id = 0 /\ r.dev = 0
      id == IF r.id # 0 THEN r.id ELSE IF r.dev # 0 THEN r.dev ELSE st.n + 1
      j == Jar(st, h)
      c == IF st.cm = "ok" THEN st.ck[j] ELSE NoCk
      own == IF st.fsbad[h] THEN None ELSE st.fs[h]
      v2 == IF c.v2 # 0 THEN c.v2 ELSE IF r.v2 # 0 THEN r.v2 ELSE id
      first == IF c.fs # None THEN c.fs ELSE IF own # None THEN own ELSE st.now
      utm == Over(Over(IF st.cm = "ok" THEN st.mk ELSE NoUtm, st.mem[h]), Links[link].utm)
  IN IF st.lm[h] # "ok" THEN [st EXCEPT !.up = FALSE, !.at = h, !.user = NoOne]
     ELSE [st EXCEPT !.n = IF mint THEN @ + 1 ELSE @,
        !.rec[h] = [dev |-> 0, id |-> id, v2 |-> v2], !.bad[h] = FALSE,
        !.fs[h] = first, !.fsbad[h] = FALSE,
        !.mem[h] = utm,
        !.ck[j] = IF st.cm = "ok" THEN [v2 |-> v2, fs |-> first] ELSE @,
        !.up = TRUE, !.at = h,
        !.user = [id |-> id, v2 |-> v2, fs |-> first, utm |-> utm]]

Kept(st, h) == IF st.bad[h] THEN [is |-> "bad"] ELSE [is |-> "rec", rec |-> st.rec[h]]
First(st, h) == IF st.fsbad[h] THEN 0 - 2 ELSE st.fs[h]
Obs(st) == [user |-> st.user, kept |-> [h \in Hosts |-> Kept(st, h)], first |-> [h \in Hosts |-> First(st, h)], mem |-> st.mem, ck |-> [h \in Hosts |-> st.ck[Jar(st, h)]]]
Do(a, st) == a.n \in Acts /\ s' = st /\ act' = a /\ obs' = Obs(st)

Init == \E sh \in Shares : s = Start(sh) /\ act = [n |-> "init", shared |-> sh] /\ obs = <<>>

VisitA == \E h \in Hosts, l \in DOMAIN Links : Do([n |-> "visit", host |-> h, link |-> Links[l]], Visit(s, h, l))
(* what an earlier version of the tag, a clean-up, or another tag leaves behind *)
Seed == \E h \in Hosts, r \in Recs : Do([n |-> "record", host |-> h, rec |-> r], [s EXCEPT !.rec[h] = r, !.bad[h] = FALSE])
Harm == \E h \in Hosts, d \in Damage : Do([n |-> "harm", host |-> h, how |-> d], [s EXCEPT !.bad[h] = TRUE, !.rec[h] = Blank])
SeedFirst == \E h \in Hosts, t \in FirstSeens : Do([n |-> "first", host |-> h, t |-> t], [s EXCEPT !.fs[h] = t, !.fsbad[h] = FALSE])
HarmFirst == \E h \in Hosts, d \in Damage : Do([n |-> "harmfirst", host |-> h, how |-> d], [s EXCEPT !.fsbad[h] = TRUE, !.fs[h] = None])
CookieA == \E h \in Hosts, c \in Cookies : s.cm = "ok" /\ (s.shared => h = Jar(s, h)) /\ Do([n |-> "cookie", host |-> h, c |-> c], [s EXCEPT !.ck[h] = [v2 |-> c.v2, fs |-> c.fs]])
Analytics == \E u \in Campaigns : s.cm = "ok" /\ Do([n |-> "analytics", utm |-> u], [s EXCEPT !.mk = u])
Mode == \E h \in Hosts, m \in {"ok", "full", "blocked"} : m # s.lm[h] /\ Do([n |-> "mode", host |-> h, m |-> m], [s EXCEPT !.lm[h] = m])
CMode == Do([n |-> "cmode", m |-> IF s.cm = "ok" THEN "off" ELSE "ok"], [s EXCEPT !.cm = IF @ = "ok" THEN "off" ELSE "ok"])
Wait == \E ms \in Steps : Do([n |-> "wait", ms |-> ms], [s EXCEPT !.now = @ + ms])
Next == VisitA \/ Seed \/ Harm \/ SeedFirst \/ HarmFirst \/ CookieA \/ Analytics \/ Mode \/ CMode \/ Wait
Spec == Init /\ [][Next]_vars

(* ---- the property ---- *)
Outside == {"record", "harm", "first", "harmfirst", "cookie"}
(* every visit has an identity and a first visit no later than now *)
Somebody == s.up => s.user.id # 0 /\ s.user.v2 # 0 /\ s.user.fs <= s.now
(* a host's identifier, once kept, stays as long as the storage does *)
IdStays == [][act'.n = "visit" /\ s.rec[act'.host].id # 0 /\ s.lm[act'.host] = "ok" => s'.user.id = s.rec[act'.host].id /\ s'.rec[act'.host].id = s.rec[act'.host].id]_vars
(* what an earlier version called the device is that identifier *)
DeviceMoves == [][act'.n = "visit" /\ s.lm[act'.host] = "ok" => s'.rec[act'.host].dev = 0]_vars
DeviceKept == [][act'.n = "visit" /\ s.lm[act'.host] = "ok" /\ s.rec[act'.host].id = 0 /\ s.rec[act'.host].dev # 0 => s'.user.id = s.rec[act'.host].dev]_vars
(* the hosts of a site with shared, working cookies know one visitor *)
OneVisitor == [][act'.n = "visit" /\ s'.up /\ s.cm = "ok" /\ s.ck[Jar(s, act'.host)].v2 # 0 => s'.user.v2 = s.ck[Jar(s, act'.host)].v2]_vars
OneFirst == [][act'.n = "visit" /\ s'.up /\ s.cm = "ok" /\ s.ck[Jar(s, act'.host)].fs # None => s'.user.fs = s.ck[Jar(s, act'.host)].fs]_vars
(* a lost cookie is made again from what the host kept *)
CookieRemade == [][act'.n = "visit" /\ s.cm = "ok" /\ s.ck[Jar(s, act'.host)].v2 = 0 /\ s.lm[act'.host] = "ok" /\ s.rec[act'.host].v2 # 0 => s'.ck[Jar(s, act'.host)].v2 = s.rec[act'.host].v2]_vars
(* the newest word on a campaign counts, older ones fill in *)
UrlFirst == [][act'.n = "visit" /\ s'.up => \A k \in Utm : act'.link.utm[k] # "" => s'.user.utm[k] = act'.link.utm[k]]_vars
NoCampaignLost == [][act'.n = "visit" /\ s.lm[act'.host] = "ok" => \A k \in Utm : s.mem[act'.host][k] # "" => s'.user.utm[k] # ""]_vars
================================================================================
