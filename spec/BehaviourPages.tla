---------------------------- MODULE BehaviourPages -----------------------------
(* Experiments on a page for those who have done certain things: what the visitor *)
(* did here, and what the relay tells of other subdomains.                          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Configs, Previews, Steps, Replies, Acts
VARIABLES s, act, obs
vars == <<s, act, obs>>
view == <<s>>
Pick(S) == S
(* Configs: sequence of sequences of [key, mode, id, kind]: a flag, and the behaviour  *)
(* which decides it ("-": on for everyone)                                          *)
Flag == Configs[s.c]
(* what must have been done: [see, buy] counts; events "see" and "buy"              *)
Kind(k, see, buy) == CASE k = "some" -> see >= 1 [] k = "two" -> see >= 2 [] k = "once" -> see = 1 [] k = "lost" -> see >= 1 /\ buy < 1 [] k = "never" -> buy < 1
                       [] k = "both" -> see >= 1 /\ buy >= 1 [] k = "either" -> see >= 2 \/ buy >= 1
(* does some rule speak of these events                                             *)
Speaks(k, y) == IF y = "see" THEN k \in {"some", "two", "once", "lost", "both", "either"} ELSE k \in {"lost", "never", "both", "either"}
Stores(c, y) == \E i \in DOMAIN Configs[c] : Configs[c][i].id # "-" /\ Speaks(Configs[c][i].kind, y)
Ruled(c) == \E i \in DOMAIN Configs[c] : Configs[c][i].id # "-"
Remote(c) == {Configs[c][i].key : i \in {j \in DOMAIN Configs[c] : Configs[c][j].mode = "remote"}}
Local(c) == {Configs[c][i].key : i \in {j \in DOMAIN Configs[c] : Configs[c][j].mode = "local"}}
Ids(st) == {Configs[st.c][i].id : i \in {j \in DOMAIN Configs[st.c] : Configs[st.c][j].id # "-" /\ Kind(Configs[st.c][j].kind, st.see, st.buy)}}
Wanted(st) == {Configs[st.c][i].key : i \in {j \in DOMAIN Configs[st.c] :
                 IF Configs[st.c][j].key \in st.pre THEN TRUE ELSE Configs[st.c][j].id = "-" \/ Kind(Configs[st.c][j].kind, st.see, st.buy)}}
(* served: what of the remote flags is known ("no", "yes", "again": asked anew)        *)
(* far: what only the other subdomains know; told: own events the relay has             *)
Init0 == [c |-> 0, pre |-> {}, see |-> 0, buy |-> 0, up |-> FALSE, served |-> "no", flags |-> -1, relay |-> "none", left |-> -1, farSee |-> 0, farBuy |-> 0, gotSee |-> 0, gotBuy |-> 0, own |-> 0, told |-> 0]
(* the preview shows its flags, and when it holds all remote ones nobody asks for them *)
Asks(st) == ~(Remote(st.c) \subseteq st.pre)
Launched(st) == IF Ruled(st.c) THEN [st EXCEPT !.relay = "loading", !.left = 4000] ELSE st
Opened(st, c, pre) ==
  LET s1 == [st EXCEPT !.c = c, !.pre = pre, !.up = TRUE, !.relay = "none", !.left = -1, !.flags = -1, !.served = "no"] IN
  IF Asks(s1) THEN [s1 EXCEPT !.flags = 1000] ELSE Launched([s1 EXCEPT !.served = "yes"])
Answered(st) == IF st.served = "no" THEN Launched([st EXCEPT !.served = "yes", !.flags = -1]) ELSE [st EXCEPT !.served = "yes", !.flags = -1]
Gone(st) == [st EXCEPT !.relay = "gone", !.left = -1]
Ready(st) == [st EXCEPT !.relay = "reading", !.left = 2000]
(* the others' history arrives: what has changed is applied again, and remote flags *)
(* which behaviours decide are asked for anew                                         *)
Joined(st) ==
  LET s1 == [st EXCEPT !.relay = "on", !.left = -1, !.see = @ + st.farSee - st.gotSee, !.buy = @ + st.farBuy - st.gotBuy, !.gotSee = st.farSee, !.gotBuy = st.farBuy, !.told = st.own]
      anew == Ids(s1) # Ids(st) /\ \E i \in DOMAIN Configs[st.c] : LET f == Configs[st.c][i] IN f.id # "-" /\ f.mode = "remote" /\ f.key \notin st.pre IN
  IF anew THEN [s1 EXCEPT !.served = "again", !.flags = 1000] ELSE s1

Less(t, d) == IF t > 0 THEN t - d ELSE t
RECURSIVE Pass(_, _)
Pass(st, ms) ==
  LET due == {t \in {st.flags, st.left} : t > 0 /\ t <= ms} IN
  IF due = {} THEN [st EXCEPT !.flags = Less(@, ms), !.left = Less(@, ms)]
  ELSE LET d == CHOOSE d \in due : \A o \in due : d <= o
           s1 == [st EXCEPT !.flags = Less(@, d), !.left = Less(@, d)]
           s2 == IF st.left = d THEN Gone(s1) ELSE s1
           s3 == IF st.flags = d THEN Answered(s2) ELSE s2 IN
       Pass(s3, ms - d)

(* what can be seen: the experiments on the page (remote ones wait for their flags),   *)
(* the behaviours the user is known by, whether the relay's frame is there             *)
On(st) == LET w == Wanted(st) IN
  [must |-> {k \in w : k \in Local(st.c) \/ k \in st.pre \/ st.served = "yes"},
   may  |-> {k \in w : k \in Local(st.c) \/ k \in st.pre \/ st.served = "yes"} \cup (IF st.served = "again" THEN Remote(st.c) ELSE {})]
Shown(st, asked) ==
  IF ~st.up THEN [up |-> FALSE]
  ELSE [up |-> TRUE, on_between |-> On(st), user_set |-> IF Ruled(st.c) THEN Ids(st) ELSE {"none"}, frame |-> IF st.relay \in {"loading", "reading", "on"} THEN 1 ELSE 0, asked |-> asked, told |-> st.told]
Asked(st, t) == IF t.served \in {"no", "again"} /\ t.flags = 1000 THEN 1 ELSE 0
Do(a, st, asked) == a.n \in Acts /\ s' = st /\ act' = a /\ obs' = Shown(st, asked)
Init == s = Init0 /\ act = [n |-> "init"] /\ obs = <<>>

Open == \E c \in Pick(DOMAIN Configs), pre \in Pick(Previews) :
  LET p == IF pre \subseteq {Configs[c][i].key : i \in DOMAIN Configs[c]} THEN pre ELSE {}
      t == Opened(s, c, p) IN
  Do([n |-> "open", flags |-> Configs[c], pre_set |-> p], t, IF Asks(t) THEN 1 ELSE 0)
Flags == s.up /\ s.flags > 0 /\ \E how \in Pick({"ok", "500", "down"}) : Do([n |-> "flags", how |-> how], Answered(s), 0)
(* an event here; those no rule speaks of are not kept                                *)
Did(st, y) == IF y = "idle" \/ ~Stores(st.c, y) THEN st
              ELSE [st EXCEPT !.see = @ + (IF y = "see" THEN 1 ELSE 0), !.buy = @ + (IF y = "buy" THEN 1 ELSE 0), !.own = @ + 1, !.told = IF st.relay = "on" THEN @ + 1 ELSE @]
Track == s.up /\ \E y \in Pick({"see", "buy", "idle"}) : Do([n |-> "track", ys |-> <<y>>], Did(s, y), 0)
(* two in the same moment *)
Both == s.up /\ \E y \in Pick({"see", "buy"}), z \in Pick({"see", "buy", "idle"}) : Do([n |-> "both", ys |-> <<y, z>>], Did(Did(s, y), z), 0)
Elsewhere == \E y \in Pick({"see", "buy"}) : s.farSee + s.farBuy < 3 /\ Do([n |-> "elsewhere", y |-> y], [s EXCEPT !.farSee = @ + (IF y = "see" THEN 1 ELSE 0), !.farBuy = @ + (IF y = "buy" THEN 1 ELSE 0)], 0)
(* a relay which has not seen this origin is given all it knows *)
RelayReady == s.up /\ s.relay = "loading" /\ \E seen \in {TRUE, FALSE} : Do([n |-> "ready", seen |-> seen], IF seen THEN Ready(s) ELSE [Ready(s) EXCEPT !.told = s.own], 0)
RelayReads == s.up /\ s.relay = "reading" /\ \E how \in Pick(Replies) :
  LET t == IF how = "ok" THEN Joined(s) ELSE Gone(s) IN
  Do([n |-> "reads", how |-> how], t, IF t.served = "again" /\ s.served # "again" THEN 1 ELSE 0)
Nav == s.up /\ \E u \in Pick({"/a", "/b"}) : Do([n |-> "nav", u |-> u], s, 0)
Wait == s.up /\ \E ms \in Pick(Steps) : Do([n |-> "wait", ms |-> ms], Pass(s, ms), 0)
Next == Open \/ Flags \/ Track \/ Both \/ Elsewhere \/ RelayReady \/ RelayReads \/ Nav \/ Wait
Spec == Init /\ [][Next]_vars

(* ---- what this gives ---- *)
(* once the remote flags are there the page shows exactly the experiments for what is known *)
Current == s.up /\ s.served = "yes" => On(s).must = Wanted(s) /\ On(s).may = Wanted(s)
PreviewedStay == s.up => s.pre \subseteq On(s).must
OthersCount == s.up /\ s.relay = "on" => s.told = s.own
NoRelayNothingNew == [][act'.n # "open" /\ s.up /\ ~(act'.n \in {"reads", "track", "both"}) => Ids(s') = Ids(s)]_vars
FailureChangesNothing == [][act'.n = "reads" /\ s'.relay = "gone" => s'.see = s.see /\ s'.buy = s.buy /\ obs'.on_between = On(s)]_vars
================================================================================
