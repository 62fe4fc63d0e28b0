------------------------------- MODULE Behaviors -------------------------------
(* Which behavioural targeting rules a visitor matches, given what the visitor   *)
(* has done. A rule is a sequence of groups, of which one must hold; a group is  *)
(* a sequence of conditions, all of which must.                                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS RuleSets, Types, Colours, Steps, Limit, Others, Acts
VARIABLES s, act, obs
vars == <<s, act, obs>>
view == <<s>>
Pick(S) == S
(* seconds *)
Hour == 3600
Day == 24 * Hour
(* ev: the stored events; gap: how long ago there was activity (-1: never); ses:  *)
(* the number of the session; rules: a sequence of [flag, id, dnf]; matched: the   *)
(* places in it of the rules which are taken to match                             *)
Init0 == [now |-> 0, up |-> FALSE, ev |-> {}, n |-> 0, last |-> -1, ses |-> 0, rules |-> <<>>, matched |-> {}]
Session(st) == IF st.last # -1 /\ st.now - st.last <= Limit THEN st.ses ELSE -2
Window(st, c) == IF c.unit = "day" THEN c.tv * Day ELSE c.tv * Hour
Fits(st, c, x) ==
  /\ x.y = c.y
  /\ IF c.tt = "current_session" THEN x.ses = Session(st) ELSE x.t >= st.now - Window(st, c)
  /\ CASE c.f = "any" -> TRUE [] c.f = "is red" -> x.c = "red" [] c.f = "not red" -> x.c # "red"
       [] c.f = "red or blue" -> x.c \in {"red", "blue"} [] c.f = "no colour" -> x.c = "~" [] c.f = "red and big" -> x.c = "red" /\ x.size = "big"
Compare(n, op, v) == CASE op = "greater or equal" -> n >= v [] op = "greater" -> n > v [] op = "is" -> n = v
                       [] op = "less" -> n < v [] op = "less or equal" -> n <= v [] op = "is not" -> n # v [] OTHER -> FALSE
Holds(st, c) == LET r == Compare(Cardinality({x \in st.ev : Fits(st, c, x)}), c.op, c.v) IN IF c.neg THEN ~r ELSE r
Matches(st, r) == \E i \in DOMAIN r.dnf : \A j \in DOMAIN r.dnf[i] : Holds(st, r.dnf[i][j])
About(r) == {r.dnf[i][j].y : <<i, j>> \in {p \in (DOMAIN r.dnf) \X (1..3) : p[2] \in DOMAIN r.dnf[p[1]]}}
Stored(st) == UNION {About(st.rules[i]) : i \in DOMAIN st.rules}
All(st) == [st EXCEPT !.matched = {i \in DOMAIN st.rules : Matches(st, st.rules[i])}]
Show(st) == {[flag |-> st.rules[i].flag, id |-> st.rules[i].id] : i \in st.matched}
Do(a, st, res) == /\ a.n \in Acts
                  /\ s' = st
                  /\ act' = a
                  /\ obs' = [matched_set |-> Show(st), res |-> res]
Init == s = Init0 /\ act = [n |-> "init"] /\ obs = [matched_set |-> {}, res |-> "~"]
Page(rules) == Do([n |-> "page", rules |-> rules], All([s EXCEPT !.up = TRUE, !.rules = rules]), "~")
(* any event is activity; those some rule is about are kept, and decide the rules  *)
(* which are about them                                                            *)
Track(y, c, size) ==
  LET st == [s EXCEPT !.ses = IF Session(s) = -2 THEN @ + 1 ELSE @, !.last = s.now]
      st1 == IF y \in Stored(s) THEN [st EXCEPT !.n = @ + 1, !.ev = @ \cup {[k |-> s.n, y |-> y, c |-> c, size |-> size, t |-> s.now, ses |-> st.ses]}] ELSE st IN
  Do([n |-> "track", y |-> y, c |-> c, size |-> size],
     [st1 EXCEPT !.matched = {i \in DOMAIN s.rules : IF y \in About(s.rules[i]) THEN Matches(st1, s.rules[i]) ELSE i \in s.matched}], "~")
(* what the visitor did on another subdomain arrives, and every rule is decided    *)
(* anew; it was in this session or in some other                                   *)
Sync(os, here) ==
  LET xs == {[k |-> s.n + i - 1, y |-> os[i].y, c |-> os[i].c, size |-> "~", t |-> s.now - os[i].ago, ses |-> IF here /\ Session(s) # -2 THEN Session(s) ELSE -1] : i \in DOMAIN os}
      st == All([s EXCEPT !.n = @ + Len(os), !.ev = @ \cup xs]) IN
  Do([n |-> "sync", others |-> os, here |-> here, how |-> "ok"], st, IF st.matched = s.matched THEN "unchanged" ELSE "behaviors_changed")
NoSync(how) == Do([n |-> "sync", others |-> <<>>, here |-> FALSE, how |-> how], s, IF how = "fail" THEN "sync_failed" ELSE "unavailable")
Wait(d) == Do([n |-> "wait", sec |-> d], [s EXCEPT !.now = @ + d], "~")
Next ==
  \/ \E r \in Pick(RuleSets), z \in Pick(1..3) : (~s.up \/ z = 1) /\ Page(r)
  \/ s.up /\ \E y \in Pick(Types), c \in Pick(Colours), size \in Pick({"big", "~"}) : Track(y, c, size)
  \/ s.up /\ \E y \in Pick(Types), c \in Pick(Colours) : Track(y, c, "big")
  \/ s.up /\ \E os \in Pick(Others), here \in Pick({TRUE, FALSE}) : Sync(os, here)
  \/ s.up /\ \E how \in Pick({"fail", "never"}) : NoSync(how)
  \/ \E d \in Pick(Steps) : Wait(d)
Spec == Init /\ [][Next]_vars
(* right after an event, the rules about it are exactly right *)
Accurate == [][act'.n = "track" => \A i \in DOMAIN s'.rules : act'.y \in About(s'.rules[i]) => ((i \in s'.matched) <=> Matches(s', s'.rules[i]))]_vars
AllAccurate == [][act'.n = "page" \/ obs'.res \in {"unchanged", "behaviors_changed"} => \A i \in DOMAIN s'.rules : (i \in s'.matched) <=> Matches(s', s'.rules[i])]_vars
(* what a rule says changes, while nothing it is about happens, only as its windows pass *)
Timeless(r) == \A i \in DOMAIN r.dnf : \A j \in DOMAIN r.dnf[i] : r.dnf[i][j].tt = "rolling" /\ r.dnf[i][j].tv > 1000
SteadyWhenTimeless == \A i \in DOMAIN s.rules : Timeless(s.rules[i]) => ((i \in s.matched) <=> Matches(s, s.rules[i]))
===============================================================================
