------------------------------- MODULE Requests -------------------------------
(* What a client sends, where, and when, by its configuration: each deployment   *)
(* key and instance name has one client, made from the first configuration given. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS Ids, WebIds, Cfgs, Uids, KeySets, Modes, Steps, Acts
VARIABLES s, act, obs
vars == <<s, act, obs>>
view == <<s>>
Pick(S) == S
Ms == 128 (* time goes in 1/128 ms *)
Never == 0 - 1

(* ---- configurations: "~" not given, "null" given as null ---- *)
Not(v) == v \in {"~", "null"}
EU(c) == c.zone \in {"EU", "eu", "Eu"}
Host(c) == IF Not(c.url) \/ c.url = "" THEN IF EU(c) THEN "api-eu" ELSE "api-us" ELSE c.url
FlagHost(c) == IF Not(c.furl) \/ c.furl = "" THEN IF EU(c) THEN "flag-eu" ELSE "flag-us" ELSE c.furl
Flag(v, d) == IF Not(v) THEN d ELSE v = "yes"
Num(v, d) == IF v.is # "ms" THEN d ELSE v.ms
Timeout(c) == Num(c.timeout, 10000)
Interval(c) == LET n == Num(c.poll, 300000) IN IF n < 60000 THEN 60000 ELSE n
FetchOnStart(c) == Flag(c.fos, TRUE)
PollOnStart(c) == Flag(c.pos, TRUE)
Retries(c) == Flag(c.retry, TRUE)
Throws(c) == Flag(c.thr, FALSE)
Level(c) == IF c.debug = "yes" THEN 4 ELSE IF c.level = Never THEN 1 ELSE c.level

(* ---- state ---- *)
(* cl[id]: cfg 0: no client; uid; up: started; start: what is awaited of the start  *)
(*   [f, v] (no, wait, ok); tick: time to the next poll; rc: the retry to come;     *)
(*   opt: its tracking option. disk: the option kept                                *)
(* fly: requests without an answer: [id, kind, why, left, uid, keys, dead]          *)
NoStart == [f |-> "no", v |-> "no"]
NoRetry == [is |-> "none"]
Blank == [cfg |-> 0, uid |-> "~", up |-> FALSE, start |-> NoStart, tick |-> Never, rc |-> NoRetry, opt |-> "~"]
Start == [cl |-> [i \in Ids |-> Blank], disk |-> [i \in Ids |-> "~"], mode |-> [v |-> "ok", f |-> "ok"], fly |-> <<>>, sent |-> <<>>, done |-> <<>>, err |-> FALSE]
Cfg(st, i) == Cfgs[st.cl[i].cfg]

Settle(st, i, what, ok) == [st EXCEPT !.done = Append(@, [id |-> i, what |-> what, ok |-> ok])]
(* 500 * 1.5^n ms, at most ten seconds *)
Delay(n) == LET p[k \in 0..8] == IF k = 0 THEN 500 * Ms ELSE (p[k - 1] * 3) \div 2 IN IF p[n] > 10000 * Ms THEN 10000 * Ms ELSE p[n]

RECURSIVE Send(_, _)
(* a part of the start is over: ok, or failed: with it the start *)
StartPart(st, i, part, ok, throws) ==
  LET st2 == [st EXCEPT !.cl[i].start[part] = "ok"]
      b == st2.cl[i].start
      over == ~ok \/ (b.f # "wait" /\ b.v # "wait")
      st3 == [st2 EXCEPT !.cl[i].start = NoStart]
      st4 == Settle(st3, i, "start", ok \/ ~throws)
  IN IF st.cl[i].start = NoStart THEN st
     ELSE IF ~over THEN st2
     ELSE IF PollOnStart(Cfg(st, i)) /\ st.cl[i].up /\ (ok \/ ~throws) /\ st.cl[i].tick = Never
          THEN Send([st4 EXCEPT !.cl[i].tick = Interval(Cfg(st, i)) * Ms], [id |-> i, kind |-> "f", why |-> "poll", uid |-> st.cl[i].uid, keys |-> <<>>, n |-> 0])
          ELSE st4
(* r: [id, kind, why, uid, keys, n]; how: ok, fail, late. n: of a retry, which; of   *)
(* a fetch, 1 when a newer one took its place                                       *)
Outcome(st, r, how) ==
  LET c == Cfg(st, r.id)
      bad == how # "ok"
      again == bad /\ Retries(c) /\ r.n = 0
      st2 == [st EXCEPT !.cl[r.id].rc = IF again THEN [is |-> "in", left |-> Delay(0), n |-> 0, uid |-> r.uid, keys |-> r.keys] ELSE @, !.err = @ \/ (how = "fail" /\ ~Throws(c))]
  IN CASE r.why = "poll" -> st
       [] r.why = "retry" -> IF bad /\ r.n + 1 < 8 THEN [st EXCEPT !.cl[r.id].rc = [is |-> "in", left |-> Delay(r.n + 1), n |-> r.n + 1, uid |-> r.uid, keys |-> r.keys]] ELSE st
       [] r.why = "fetch" -> Settle(st2, r.id, "fetch", ~bad \/ ~Throws(c))
       [] r.kind = "f" -> StartPart(st, r.id, "f", ~bad \/ (how = "late" /\ ~Throws(c)), Throws(c))
       [] OTHER -> StartPart(st2, r.id, "v", ~bad \/ ~Throws(c), Throws(c))
Limit(c, r) == IF r.why = "retry" THEN 10000 ELSE Timeout(c)
Send(st, r) ==
  LET c == Cfg(st, r.id)
      rec == [id |-> r.id, kind |-> r.kind, host |-> IF r.kind = "f" THEN FlagHost(c) ELSE Host(c), by |-> c.http, limit |-> IF c.http = "own" THEN Limit(c, r) ELSE 0,
        uid |-> IF r.kind = "f" /\ r.id \notin WebIds THEN "~" ELSE r.uid, keys |-> r.keys, track |-> IF r.kind = "f" THEN "~" ELSE st.cl[r.id].opt, web |-> r.kind = "f" /\ r.id \in WebIds]
      st2 == [st EXCEPT !.sent = Append(@, rec)]
      mode == st.mode[r.kind]
      late == c.http = "own" \/ Limit(c, r) <= 0
  IN IF mode = "silent" THEN IF r.why = "poll" THEN st2 ELSE [st2 EXCEPT !.fly = Append(@, [r |-> r, left |-> IF late THEN Never ELSE Limit(c, r) * Ms])]
     ELSE Outcome(st2, r, mode)

(* a new fetch takes the place of retries and of what older fetches would retry *)
Supersede(st, i) ==
  LET others == SelectSeq(st.fly, LAMBDA x : ~(x.r.id = i /\ x.r.why = "retry"))
  IN IF ~Retries(Cfg(st, i)) THEN st
     ELSE [st EXCEPT !.cl[i].rc = NoRetry, !.fly = [k \in DOMAIN others |-> IF others[k].r.id = i /\ others[k].r.kind = "v" THEN [others[k] EXCEPT !.r.n = 1] ELSE others[k]]]

(* ---- time ---- *)
RECURSIVE Advance(_, _)
Less(v, t) == IF v = Never THEN v ELSE v - t
Advance(st, t) ==
  LET ev == {st.fly[k].left : k \in DOMAIN st.fly} \cup {st.cl[i].tick : i \in Ids} \cup {st.cl[i].rc.left : i \in {j \in Ids : st.cl[j].rc.is = "in"}}
      due == {e \in ev : e # Never /\ e <= t}
      step == IF due = {} THEN t ELSE CHOOSE m \in due : \A n \in due : m <= n
      aged == [st EXCEPT !.fly = [k \in DOMAIN @ |-> [@[k] EXCEPT !.left = Less(@, step)]],
        !.cl = [i \in Ids |-> [@[i] EXCEPT !.tick = Less(@, step), !.rc = IF @.is = "in" THEN [@ EXCEPT !.left = @ - step] ELSE @]]]
      late == SelectSeq(aged.fly, LAMBDA x : x.left = 0)
      base == [aged EXCEPT !.fly = SelectSeq(@, LAMBDA x : x.left # 0)]
      ids == SetToSeq(Ids)
      Polls(v, i) == IF v.cl[i].tick # 0 THEN v ELSE Send([v EXCEPT !.cl[i].tick = Interval(Cfg(v, i)) * Ms], [id |-> i, kind |-> "f", why |-> "poll", uid |-> v.cl[i].uid, keys |-> <<>>, n |-> 0])
      Retry(v, i) == IF v.cl[i].rc.is = "none" \/ (v.cl[i].rc.is = "in" /\ v.cl[i].rc.left # 0) THEN v
        ELSE Send([v EXCEPT !.cl[i].rc = NoRetry], [id |-> i, kind |-> "v", why |-> "retry", uid |-> v.cl[i].rc.uid, keys |-> v.cl[i].rc.keys, n |-> v.cl[i].rc.n])
      after == FoldLeft(Retry, FoldLeft(Polls, FoldLeft(LAMBDA v, x : Outcome(v, x.r, "late"), base, late), ids), ids)
  IN IF t = 0 THEN st ELSE IF due = {} THEN aged ELSE CHOOSE r \in {Advance(v, t - step) : v \in {after}} : TRUE

(* ---- what is seen ---- *)
Levels == <<"error", "warn", "info", "debug", "verbose">>
Speaks(st) == LET up == {Level(Cfg(st, i)) : i \in {j \in Ids : st.cl[j].cfg # 0}}
  IN IF up = {} THEN {} ELSE LET m == CHOOSE n \in up : \A k \in up : k <= n IN {Levels[k] : k \in 1..m}
(* with one client, a failed fetch is logged unless errors are silenced *)
MustLog(st) == LET up == {j \in Ids : st.cl[j].cfg # 0} IN IF st.err /\ Cardinality(up) = 1 /\ \A i \in up : Level(Cfg(st, i)) >= 1 THEN {"error"} ELSE {}
Obs(st) == [sent_bag |-> st.sent, done_bag |-> st.done, log_between |-> [must |-> SetToSeq(MustLog(st)), may |-> SetToSeq(Speaks(st))], clients |-> [i \in {j \in Ids : st.cl[j].cfg # 0} |-> TRUE]]
Clean(st) == [st EXCEPT !.sent = <<>>, !.done = <<>>, !.err = FALSE]
Do(a, st) == a.n \in Acts /\ act' = a /\ \E v \in {st} : obs' = Obs(v) /\ s' = Clean(v)

Init == s = Start /\ act = [n |-> "init"] /\ obs = <<>>
Make == \E i \in Pick(Ids), k \in Pick(DOMAIN Cfgs) :
  Do([n |-> "make", id |-> i, cfg |-> Cfgs[k]], IF s.cl[i].cfg # 0 THEN s ELSE [s EXCEPT !.cl[i] = [Blank EXCEPT !.cfg = k, !.opt = s.disk[i]]])
Live == {i \in Ids : s.cl[i].cfg # 0}
Begin == \E i \in Live, u \in Uids : s.cl[i].start = NoStart /\ (\A k \in DOMAIN s.fly : ~(s.fly[k].r.id = i /\ s.fly[k].r.why = "start")) /\
  Do([n |-> "start", id |-> i, u |-> u],
     IF s.cl[i].up THEN Settle(s, i, "start", TRUE)
     ELSE LET c == Cfg(s, i)
              st1 == [s EXCEPT !.cl[i].up = TRUE, !.cl[i].uid = u, !.cl[i].start = [f |-> "wait", v |-> IF FetchOnStart(c) THEN "wait" ELSE "no"]]
              r == [id |-> i, kind |-> "f", why |-> "start", uid |-> u, keys |-> <<>>, n |-> 0]
          IN IF FetchOnStart(c) THEN Send(Send(Supersede(st1, i), [r EXCEPT !.kind = "v", !.keys = <<"*">>]), r) ELSE Send(st1, r))
Fetch == \E i \in Live, u \in Uids, ks \in KeySets :
  LET uid == IF u = "~" THEN s.cl[i].uid ELSE u IN
  Do([n |-> "fetch", id |-> i, u |-> u, keys |-> ks],
     Send(Supersede([s EXCEPT !.cl[i].uid = uid], i), [id |-> i, kind |-> "v", why |-> "fetch", uid |-> uid, keys |-> ks, n |-> 0]))
Track == \E i \in Live, o \in {"track", "no-track"} : Do([n |-> "track", id |-> i, o |-> o], [s EXCEPT !.cl[i].opt = o, !.disk[i] = o])
User == \E i \in Live, u \in Uids : Do([n |-> "user", id |-> i, u |-> u], [s EXCEPT !.cl[i].uid = u])
Stop == \E i \in Live : s.cl[i].up /\ s.cl[i].start = NoStart /\ Do([n |-> "stop", id |-> i], [s EXCEPT !.cl[i].up = FALSE, !.cl[i].tick = Never])
Server == \E k \in {"v", "f"}, m \in Modes : s.mode[k] # m /\ Do([n |-> "server", k |-> k, m |-> m], [s EXCEPT !.mode[k] = m])
Wait == \E t \in Steps : Do([n |-> "wait", t |-> t], Advance(s, t))
Reload == Live # {} /\ Do([n |-> "reload"], [s EXCEPT !.cl = [i \in Ids |-> Blank], !.fly = <<>>])
Next == Make \/ Begin \/ Fetch \/ Track \/ User \/ Stop \/ Server \/ Wait \/ Reload
Spec == Init /\ [][Next]_vars

(* ---- the property ---- *)
Out == {obs'.sent_bag[k] : k \in DOMAIN obs'.sent_bag}
RightPlace == [][\A r \in Out : r.host = IF r.kind = "v" THEN Host(Cfg(s', r.id)) ELSE FlagHost(Cfg(s', r.id))]_vars
FirstConfiguration == [][act'.n # "reload" => \A i \in Ids : s.cl[i].cfg # 0 => s'.cl[i].cfg = s.cl[i].cfg]_vars
NothingUnasked == [][\A r \in Out : act'.n \in {"start", "fetch", "wait"}]_vars
NoFetchOnStart == [][act'.n = "start" => \A r \in Out : r.kind = "v" => FetchOnStart(Cfg(s', r.id))]_vars
StoppedSendsNoFlags == [][act'.n = "wait" => \A r \in Out : r.kind = "f" => s.cl[r.id].up]_vars
OptionSent == [][\A r \in Out : r.kind = "v" => r.track = s'.cl[r.id].opt]_vars
OnlyWhenConfigured == \A i \in Live : (s.cl[i].rc # NoRetry => Retries(Cfg(s, i))) /\ (s.cl[i].tick # Never => PollOnStart(Cfg(s, i)))
ThrowsOnlyIfAsked == [][\A k \in DOMAIN obs'.done_bag : ~obs'.done_bag[k].ok => Throws(Cfg(s', obs'.done_bag[k].id))]_vars
================================================================================
