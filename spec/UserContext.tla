------------------------------ MODULE UserContext ------------------------------
(* What a client made by initialize() knows of the user without being told: the  *)
(* page, the browser, what the device remembers, and the groups of the user as   *)
(* targeting sees them.                                                           *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Pages, Refs, Agents, Users, Provs, CookieVals, Steps, Modes, Damage, Acts
VARIABLES s, act, obs
vars == <<s, act, obs>>
view == <<s>>
Pick(S) == S
At(l) == DOMAIN l

(* A page: [p: path without final slash, slash, q: << [k, vs], ... >>]; one       *)
(* parameter holds its values separated by commas.                                *)
(* Users and Provs: [f |-> [field |-> value or "~"], groups |-> << [t, names] >>,  *)
(*   gp |-> << [t, name, plan] >> ]                                               *)
Fields == {"language", "country", "platform", "os", "device_model", "device_category", "browser", "referring_url", "landing_url", "first_seen"}
Values(q, k) ==
  LET F[i \in 0..Len(q)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o (IF q[i].k = k THEN q[i].vs ELSE <<>>) IN F[Len(q)]
Params(pg) == [k \in {pg.q[i].k : i \in At(pg.q)} |-> Values(pg.q, k)]
(* an address is remembered without the slash at its end *)
Trim(pg) == IF pg.q = <<>> THEN [pg EXCEPT !.slash = FALSE] ELSE pg
None == "~"
NoPage == [p |-> "none", slash |-> FALSE, q |-> <<>>]

(* tab, dev: the record of the session and of the device: "~" none, "bad" not     *)
(*   readable, otherwise the landing page / the time of the first visit           *)
(* tm, dm: whether session and device storage work: ok, full, blocked             *)
(* ck: cookies of the page                                                        *)
Start == [page |-> NoPage, ref |-> 0, agent |-> 0, tab |-> [is |-> "none"], dev |-> [is |-> "none"], tm |-> "ok", dm |-> "ok", ck |-> <<>>, user |-> 0, prov |-> 0, now |-> 0]

(* asking remembers what was not remembered *)
Asked(st) ==
  LET t == IF st.tab.is = "none" /\ st.tm = "ok" THEN [is |-> "some", v |-> Trim(st.page)] ELSE st.tab
      d == IF st.dev.is = "none" /\ st.dm = "ok" THEN [is |-> "some", v |-> st.now] ELSE st.dev
  IN [st EXCEPT !.tab = t, !.dev = d]
Landing(st) == IF st.tm = "blocked" \/ st.tab.is # "some" THEN [is |-> "none"] ELSE st.tab
Seen(st) == IF st.dm = "blocked" \/ st.dev.is # "some" THEN [is |-> "none"] ELSE st.dev

(* what the page itself tells *)
Own(st, f) ==
  CASE f = "language" -> Agents[st.agent].language
    [] f = "platform" -> "Web"
    [] f = "os" -> Agents[st.agent].os
    [] f = "device_model" -> Agents[st.agent].model
    [] f = "device_category" -> Agents[st.agent].category
    [] f = "browser" -> Agents[st.agent].browser
    [] f = "referring_url" -> Refs[st.ref].trimmed
    [] OTHER -> None
(* a field the application leaves null counts as not given *)
Say(v) == IF v = "null" THEN None ELSE v
Given(st, f) == IF Say(Users[st.user].f[f]) # None THEN Say(Users[st.user].f[f]) ELSE Say(Provs[st.prov].f[f])
(* the application's word, then the page's *)
Field(st, f) ==
  IF Given(st, f) # None THEN [is |-> "given", g |-> Given(st, f)]
  ELSE IF f = "landing_url" THEN Landing(st)
  ELSE IF f = "first_seen" THEN Seen(st)
  ELSE IF Own(st, f) = None THEN [is |-> "none"] ELSE [is |-> "own", o |-> Own(st, f)]

(* groups: the user's own, or else the provider's *)
GroupsOf(st) == IF Users[st.user].groups # <<>> THEN Users[st.user].groups ELSE Provs[st.prov].groups
PlansOf(st) == IF Users[st.user].gp # <<>> THEN Users[st.user].gp ELSE Provs[st.prov].gp
(* targeting sees the first name of each type, with its properties *)
Seen1(l) == Len(l) > 0 /\ l[1] # ""
Group(st, t) ==
  LET gs == GroupsOf(st) ps == PlansOf(st)
      i == {j \in At(gs) : gs[j].t = t /\ Seen1(gs[j].names)}
      name == gs[CHOOSE j \in i : TRUE].names[1]
      p == {j \in At(ps) : ps[j].t = t /\ ps[j].name = name}
  IN IF i = {} THEN [name |-> None, plan |-> None]
     ELSE [name |-> name, plan |-> IF p = {} THEN None ELSE ps[CHOOSE j \in p : TRUE].plan]

Obs(st) == [fields |-> [f \in Fields |-> Field(st, f)],
  params |-> Params(st.page),
  cookies |-> st.ck,
  groups |-> GroupsOf(st), plans |-> PlansOf(st),
  target |-> [page |-> st.page, company |-> Group(st, "company"), team |-> Group(st, "team"), cookie_set |-> {st.ck[i].v : i \in {j \in At(st.ck) : st.ck[j].n = "c1"}},
    landing |-> Field(st, "landing_url"), param_set |-> {Values(st.page.q, "x")[i] : i \in At(Values(st.page.q, "x"))}]]
Do(a, st0) == LET st == Asked(st0) IN
  /\ a.n \in Acts
  /\ s' = st /\ act' = a
  /\ obs' = Obs(st)

Init == s = Start /\ act = [n |-> "init"] /\ obs = <<>>

Load == \E i \in At(Pages), r \in At(Refs), g \in At(Agents), fresh \in BOOLEAN, u \in Pick(At(Users)), p \in Pick(At(Provs)) :
  /\ s.page = NoPage => fresh
  /\ Do([n |-> "load", page |-> Pages[i], ref |-> Refs[r].url, agent |-> Agents[g], fresh |-> fresh, user |-> Users[u], prov |-> Provs[p]],
        [s EXCEPT !.page = Pages[i], !.ref = r, !.agent = g, !.tab = IF fresh THEN [is |-> "none"] ELSE @, !.user = u, !.prov = p])
There == s.page # NoPage
Nav == There /\ \E i \in At(Pages) : Pages[i] # s.page /\ Do([n |-> "nav", page |-> Pages[i]], [s EXCEPT !.page = Pages[i]])
SetUser == There /\ \E u \in At(Users) : Do([n |-> "user", user |-> Users[u]], [s EXCEPT !.user = u])
SetProv == There /\ \E p \in At(Provs) : Do([n |-> "prov", prov |-> Provs[p]], [s EXCEPT !.prov = p])
Cookie == There /\ \E n \in {"c1", "c2"}, v \in CookieVals :
  LET l == SelectSeq(s.ck, LAMBDA c : c.n # n) IN
  Do([n |-> "cookie", name |-> n, v |-> v], [s EXCEPT !.ck = IF v = None THEN l ELSE Append(l, [n |-> n, v |-> v])])
Wait == There /\ \E ms \in Steps : Do([n |-> "wait", ms |-> ms], [s EXCEPT !.now = @ + ms])
Mode == There /\ \E w \in {"tm", "dm"}, m \in Modes : s[w] # m /\ Do([n |-> "mode", of |-> w, m |-> m], [s EXCEPT ![w] = m])
Harm == There /\ \E w \in {"tab", "dev"}, d \in Damage :
  Do([n |-> "harm", of |-> w, how |-> d], [s EXCEPT ![w] = [is |-> IF d = "gone" THEN "none" ELSE "bad"]])
Next == Load \/ Nav \/ SetUser \/ SetProv \/ Cookie \/ Wait \/ Mode \/ Harm
Spec == Init /\ [][Next]_vars

(* ---- the property ---- *)
(* what the application says is what counts *)
AppWins == s.page # NoPage => \A f \in Fields : Given(s, f) # None => obs.fields[f] = [is |-> "given", g |-> Given(s, f)]
(* the first page of a session, the first visit of a device: once remembered, kept *)
LandingKept == [][s.tab.is = "some" /\ act'.n # "harm" /\ ~(act'.n = "load" /\ act'.fresh) => s'.tab = s.tab]_vars
FirstSeenKept == [][s.dev.is = "some" /\ act'.n # "harm" => s'.dev = s.dev]_vars
(* storage that fails costs those two fields only *)
OnlyThose == [][act'.n = "mode" => \A f \in Fields \ {"landing_url", "first_seen"} : obs'.fields[f] = obs.fields[f]]_vars
(* a later name of a group type is never targeted *)
FirstName == s.page # NoPage => \A t \in {"company", "team"} : \A j \in At(GroupsOf(s)) :
  GroupsOf(s)[j].t = t /\ Seen1(GroupsOf(s)[j].names) => Group(s, t).name = GroupsOf(s)[j].names[1]
================================================================================
