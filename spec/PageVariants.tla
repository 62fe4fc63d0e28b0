----------------------------- MODULE PageVariants ------------------------------
(* What the web client changes on a page: which changes of which variants are    *)
(* in effect as the visitor moves between addresses, pages are switched on and   *)
(* off by hand, variants change, and changes are applied, reverted, previewed.   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Confs, Urls, Queries, Acts
VARIABLES s, act, obs
vars == <<s, act, obs>>
view == <<s>>
Pick(S) == S
Range(q) == {q[i] : i \in DOMAIN q}
(* a configuration: flags = <<[key, web, does]>>, pages = <<[f, id, trig, name, urls]>>     *)
(* does: variant -> <<action>> or None;  an action is                                 *)
(*   [k |-> "mutate", ms |-> <<[id, scope]>>]  or  [k |-> "inject", id, scope, js, css]     *)
(* scope: <<"*">> (any page of the flag) or page ids                                       *)
C == Confs[s.c]
Keys(c) == {Confs[c].flags[i].key : i \in DOMAIN Confs[c].flags}
FlagAt(c, f) == LET i == CHOOSE i \in DOMAIN Confs[c].flags : Confs[c].flags[i].key = f IN Confs[c].flags[i]
Variants(c, f) == DOMAIN FlagAt(c, f).does
(* a flag may assign nothing at all *)
Unassigned == "nothing"
None == <<[k |-> "none"]>>
NoPreview(c) == [f \in Keys(c) |-> "~"]
Clean(c) == [f \in Keys(c) |-> [v |-> "~", on |-> {}]]
Pages(c) == Range(Confs[c].pages)
Names(c) == {p.name : p \in Pages(c)} \ {"~"}
Id(p) == [f |-> p.f, id |-> p.id]
OnUrl(p, u) == p.urls = {} \/ u \in p.urls
ActiveNow(c, u, man) == {Id(p) : p \in {q \in Pages(c) : OnUrl(q, u) /\ (q.trig = "url_change" \/ q.name \in man)}}
AnyPage(st, f) == \E p \in st.active : p.f = f
InScope(st, f, scope) == IF scope = <<"*">> THEN AnyPage(st, f) ELSE \E i \in DOMAIN scope : [f |-> f, id |-> scope[i]] \in st.active
(* what happened in this step: exposures, injections run, their own clean-up run *)
NoEv == [exp |-> {}, ran |-> {}, rm |-> {}]
Injects(c, f, v) == IF FlagAt(c, f).does[v] = None THEN {} ELSE {a \in Range(FlagAt(c, f).does[v]) : a.k = "inject"}
WithRemover(c, f, v) == {a.id : a \in {x \in Injects(c, f, v) : x.js \in {"remover", "removerthrows"}}}
Revert(r, f) ==
  LET st == r.st a == st.app[f] IN
  IF a.on = {} THEN r
  ELSE [st |-> [st EXCEPT !.app[f] = [v |-> "~", on |-> {}]],
        ev |-> [r.ev EXCEPT !.rm = @ \cup {[f |-> f, v |-> a.v, id |-> i] : i \in a.on \cap WithRemover(st.c, f, a.v)}]]
Drop(r, f, v, id) ==
  IF id \notin r.st.app[f].on THEN r
  ELSE LET left == r.st.app[f].on \ {id} IN
       [st |-> [r.st EXCEPT !.app[f] = IF left = {} THEN [v |-> "~", on |-> {}] ELSE [v |-> v, on |-> left]],
        ev |-> [r.ev EXCEPT !.rm = IF id \in WithRemover(r.st.c, f, v) THEN @ \cup {[f |-> f, v |-> v, id |-> id]} ELSE @]]
Add(r, f, v, id) == [r EXCEPT !.st.app[f] = [v |-> v, on |-> @.on \cup {id}]]
(* an impression, unless this variant was already counted at this address *)
Expose(r, f, v) ==
  IF r.st.cache[f] = v THEN r
  ELSE [st |-> [r.st EXCEPT !.cache[f] = v],
        ev |-> [r.ev EXCEPT !.exp = @ \cup {[f |-> f, v |-> IF r.st.pv[f] # "~" THEN v ELSE r.st.assign[f]]}]]
RECURSIVE Mutations(_, _, _, _)
Mutations(r, f, v, ms) ==
  IF ms = <<>> THEN r
  ELSE LET m == Head(ms)
           r1 == IF InScope(r.st, f, m.scope) THEN Add(Expose(r, f, v), f, v, m.id) ELSE Drop(r, f, v, m.id) IN
       Mutations(r1, f, v, Tail(ms))
Inject(r, f, v, a) ==
  IF ~InScope(r.st, f, a.scope) THEN Drop(r, f, v, a.id)
  ELSE IF a.js = "badid" \/ a.id \in r.st.app[f].on THEN r
  ELSE LET r1 == Add(r, f, v, a.id) IN
       Expose([r1 EXCEPT !.ev.ran = IF a.js = "nojs" THEN @ ELSE @ \cup {[f |-> f, v |-> v, id |-> a.id]}], f, v)
RECURSIVE Actions(_, _, _, _)
Actions(r, f, v, as) ==
  IF as = <<>> THEN r
  ELSE Actions(IF Head(as).k = "mutate" THEN Mutations(r, f, v, Head(as).ms) ELSE Inject(r, f, v, Head(as)), f, v, Tail(as))
ApplyFlag(r, f) ==
  LET fl == FlagAt(r.st.c, f)
      v == r.st.assign[f]
      r1 == IF r.st.app[f].on # {} /\ r.st.app[f].v # v THEN Revert(r, f) ELSE r IN
  IF r.st.pv[f] # "~" THEN r
  ELSE IF ~fl.web \/ v = Unassigned THEN r1
  ELSE LET r2 == IF v \in {"off", "control"} /\ AnyPage(r1.st, f) THEN Expose(r1, f, v) ELSE r1 IN
       IF v = "off" THEN Revert(r2, f)
       ELSE IF fl.does[v] = None THEN r2 ELSE Actions(r2, f, v, fl.does[v])
RECURSIVE ApplySeq(_, _)
ApplySeq(r, fs) == IF fs = <<>> THEN r ELSE ApplySeq(ApplyFlag(r, Head(fs)), Tail(fs))
Order(c) == [i \in DOMAIN Confs[c].flags |-> Confs[c].flags[i].key]
(* applying: at an address not seen last, impressions are counted anew *)
Fresh(r) == IF r.st.cu = r.st.url THEN r ELSE [r EXCEPT !.st.cu = r.st.url, !.st.cache = NoPreview(r.st.c)]
Apply(r, fs) == ApplySeq(Fresh(r), SelectSeq(Order(r.st.c), LAMBDA f : f \in fs))
PreviewFlag(r, f, v) ==
  LET r1 == Revert(r, f) IN
  IF v \notin Variants(r.st.c, f) THEN r1
  ELSE IF FlagAt(r.st.c, f).does[v] = None THEN (IF AnyPage(r1.st, f) THEN Expose(r1, f, v) ELSE r1)
  ELSE Actions(r1, f, v, FlagAt(r.st.c, f).does[v])
RECURSIVE PreviewSeq(_, _)
PreviewSeq(r, fs) == IF fs = <<>> THEN r ELSE PreviewSeq(PreviewFlag(r, Head(fs), r.st.pv[Head(fs)]), Tail(fs))
Preview(r, fs) == PreviewSeq(r, SelectSeq(Order(r.st.c), LAMBDA f : f \in fs /\ r.st.pv[f] # "~"))
Evaluate(r, fs) == Preview(Apply(r, fs), fs)
RECURSIVE RevertSeq(_, _)
RevertSeq(r, fs) == IF fs = <<>> THEN r ELSE RevertSeq(Revert(r, Head(fs)), Tail(fs))
(* injections do not survive a change of address *)
RECURSIVE DropInjects(_, _)
DropInjects(r, todo) ==
  IF todo = {} THEN r
  ELSE LET x == CHOOSE x \in todo : TRUE IN DropInjects(Drop(r, x.f, r.st.app[x.f].v, x.id), todo \ {x})
InjectsOn(st) == UNION {{[f |-> f, id |-> a.id] : a \in {x \in Injects(st.c, f, st.app[f].v) : x.id \in st.app[f].on}} : f \in {g \in Keys(st.c) : st.app[g].on # {}}}

Css(st, f) == {[f |-> f, v |-> st.app[f].v, id |-> a.id] : a \in {x \in Injects(st.c, f, st.app[f].v) : x.id \in st.app[f].on /\ x.css}}
Js(st, f) == {[f |-> f, v |-> st.app[f].v, id |-> a.id] : a \in {x \in Injects(st.c, f, st.app[f].v) : x.id \in st.app[f].on /\ x.js \in {"plain", "remover"}}}
Muts(st, f) == {[f |-> f, v |-> st.app[f].v, id |-> i] : i \in st.app[f].on \ {a.id : a \in Injects(st.c, f, st.app[f].v)}}
OnFlags(st) == {f \in Keys(st.c) : st.app[f].on # {}}
Obs(st, ev) == [muts_bag |-> UNION {Muts(st, f) : f \in OnFlags(st)}, css_bag |-> UNION {Css(st, f) : f \in OnFlags(st)},
                scripts_bag |-> UNION {Js(st, f) : f \in OnFlags(st)}, ran_bag |-> ev.ran, rm_bag |-> ev.rm, exp_bag |-> ev.exp,
                experiments_bag |-> OnFlags(st), pages_bag |-> st.active]
NoObs == <<>>
Do(a, r) == a.n \in Acts /\ s' = r.st /\ act' = a /\ obs' = Obs(r.st, r.ev)
DoAny(a, r) == a.n \in Acts /\ s' = r.st /\ act' = a /\ obs' = [Obs(r.st, r.ev) EXCEPT !.exp_bag = "*"]
Init == s = [c |-> 0] /\ act = [n |-> "init"] /\ obs = NoObs
Assigned(c, n) == [f \in Keys(c) |-> Confs[c].start[n][f]]
(* an address that asks for a preview has no other parameters: all are taken for flags *)
PlainQueries == {"?x=1"}
Load(c, u, q0, n, pvs) ==
  LET q == IF pvs # <<>> /\ q0 \in PlainQueries THEN "" ELSE q0
      pv == [f \in Keys(c) |-> IF f \in DOMAIN pvs THEN pvs[f] ELSE "~"]
      st == [c |-> c, url |-> u, q |-> q, man |-> {}, active |-> ActiveNow(c, u, {}), assign |-> Assigned(c, n), app |-> Clean(c), cache |-> NoPreview(c), cu |-> "~", pv |-> pv] IN
  s.c = 0 /\ Do([n |-> "load", conf |-> Confs[c], url |-> u, q |-> q, assign |-> st.assign, pv |-> pv], Evaluate([st |-> st, ev |-> NoEv], Keys(c)))
Nav(u, q, how) ==
  /\ s.c # 0
  /\ IF u = s.url /\ q = s.q THEN Do([n |-> "nav", url |-> u, q |-> q, how |-> how], [st |-> s, ev |-> NoEv])
     ELSE LET st == [s EXCEPT !.url = u, !.q = q, !.man = {}, !.active = ActiveNow(s.c, u, {})]
              r == DropInjects([st |-> st, ev |-> NoEv], InjectsOn(st)) IN
          Do([n |-> "nav", url |-> u, q |-> q, how |-> how], Evaluate(r, Keys(s.c)))
(* two addresses, or an address and a switch, before the page has got round to the first *)
Hop(r, u, q) ==
  IF u = r.st.url /\ q = r.st.q THEN r
  ELSE LET st == [r.st EXCEPT !.url = u, !.q = q, !.man = {}, !.active = ActiveNow(r.st.c, u, {})] IN Fresh(DropInjects([r EXCEPT !.st = st], InjectsOn(st)))
Burst(u1, q1, u2, q2, name) ==
  /\ s.c # 0 /\ s.pv = NoPreview(s.c) /\ (u1 # s.url \/ q1 # s.q)
  /\ LET r1 == Hop([st |-> s, ev |-> NoEv], u1, q1)
         r2 == IF name = "~" THEN Hop(r1, u2, q2) ELSE [r1 EXCEPT !.st.man = {name}, !.st.active = ActiveNow(s.c, u1, {name})] IN
     Do([n |-> "burst", first |-> [url |-> u1, q |-> q1], then |-> [url |-> u2, q |-> q2], name |-> name], Evaluate(r2, Keys(s.c)))
ManualFlags == {p.f : p \in {q \in Pages(s.c) : q.trig = "manual"}}
Toggle(name, on) ==
  /\ s.c # 0
  /\ LET man == IF on THEN s.man \cup {name} ELSE s.man \ {name}
         st == [s EXCEPT !.man = man, !.active = ActiveNow(s.c, s.url, man)]
         r == [st |-> st, ev |-> NoEv] IN
     Do([n |-> "toggle", name |-> name, on |-> on], IF st.active = s.active THEN r ELSE Evaluate(r, ManualFlags))
Assign(f, v) == s.c # 0 /\ s.assign[f] # v /\ Do([n |-> "assign", f |-> f, v |-> v], [st |-> [s EXCEPT !.assign[f] = v], ev |-> NoEv])
ApplyAsked(fs) == s.c # 0 /\ Do([n |-> "apply", fs |-> fs], Apply([st |-> s, ev |-> NoEv], fs))
ApplyAll == s.c # 0 /\ Do([n |-> "apply", fs |-> {"*all*"}], Apply([st |-> s, ev |-> NoEv], Keys(s.c)))
RevertAsked(fs) == s.c # 0 /\ Do([n |-> "revert", fs |-> fs], RevertSeq([st |-> s, ev |-> NoEv], SelectSeq(Order(s.c), LAMBDA f : f \in fs)))
RevertAll == s.c # 0 /\ Do([n |-> "revert", fs |-> {"*all*"}], RevertSeq([st |-> s, ev |-> NoEv], Order(s.c)))
PreviewAsked(f, v) == s.c # 0 /\ s.pv[f] = "~" /\ FlagAt(s.c, f).web /\ DoAny([n |-> "preview", f |-> f, v |-> v], PreviewFlag([st |-> s, ev |-> NoEv], f, v))
PvChoices(c) == {<<>>} \cup Range(Confs[c].previews)
Next ==
  \/ \E c \in Pick(DOMAIN Confs) : \E u \in Pick(Urls), q \in Pick(Queries), n \in Pick(DOMAIN Confs[c].start), pv \in Pick(PvChoices(c)) : Load(c, u, q, n, pv)
  \/ s.c # 0 /\
     \/ \E u \in Pick(Urls), q \in Pick(Queries), how \in Pick({"push", "replace", "back"}) : Nav(u, q, how)
     \/ \E u \in Pick(Urls) : Nav(u, s.q, "push")
     \/ \E z \in Pick(1..3), u \in Pick(Urls), w \in Pick(Urls), q \in Pick(Queries) : z = 1 /\ Burst(u, s.q, w, q, "~")
     \/ \E u \in Pick(Urls), q \in Pick(Queries), name \in Pick(Names(s.c)) : Burst(u, q, u, q, name)
     \/ \E name \in Pick(Names(s.c)), on \in Pick({TRUE, FALSE}) : Toggle(name, on)
     \/ \E name \in Pick(Names(s.c)) : Toggle(name, name \notin s.man)
     \/ \E f \in Pick(Keys(s.c)) : \E v \in Pick(Variants(s.c, f) \cup {Unassigned}) : Assign(f, v)
     \/ ApplyAll
     \/ \E f \in Pick(Keys(s.c)) : ApplyAsked({f})
     \/ RevertAll
     \/ \E f \in Pick(Keys(s.c)) : RevertAsked({f})
     \/ \E f \in Pick(Keys(s.c)) : \E v \in Pick(Variants(s.c, f)) : PreviewAsked(f, v)
Spec == Init /\ [][Next]_vars
(* --- what follows from it ---------------------------------------------------- *)
Wanted(st, f, v) ==
  IF FlagAt(st.c, f).does[v] = None THEN {}
  ELSE UNION {IF a.k = "mutate" THEN {m.id : m \in {x \in Range(a.ms) : InScope(st, f, x.scope)}}
              ELSE IF a.js # "badid" /\ InScope(st, f, a.scope) THEN {a.id} ELSE {} : a \in Range(FlagAt(st.c, f).does[v])}
InEffect(st, f) == st.app[f].on
(* moving to an address or applying everything leaves exactly what is called for *)
Exact == [][(act'.n \in {"load", "burst"} \/ (act'.n = "nav" /\ (s.url # s'.url \/ s.q # s'.q)) \/ (act'.n = "apply" /\ act'.fs = {"*all*"})) =>
  \A f \in Keys(s'.c) : IF s'.pv[f] # "~" THEN (act'.n = "apply" \/ (s'.pv[f] \in Variants(s'.c, f) => InEffect(s', f) = Wanted(s', f, s'.pv[f])))
                        ELSE InEffect(s', f) = IF FlagAt(s'.c, f).web /\ s'.assign[f] \notin {"off", Unassigned} THEN Wanted(s', f, s'.assign[f]) ELSE {}]_vars
OneVariant == s.c # 0 => \A f \in Keys(s.c) : s.app[f].on # {} => \A i \in s.app[f].on : \E a \in Range(FlagAt(s.c, f).does[s.app[f].v]) : IF a.k = "mutate" THEN \E m \in Range(a.ms) : m.id = i ELSE a.id = i
RevertGone == [][act'.n = "revert" => \A f \in Keys(s.c) : IF act'.fs = {"*all*"} \/ f \in act'.fs THEN InEffect(s', f) = {} ELSE s'.app[f] = s.app[f]]_vars
OnlyActiveCounted == [][(s'.c # 0 /\ act'.n # "preview") => \A e \in obs'.exp_bag : AnyPage(s', e.f)]_vars
CountedOnce == [][(s.c # 0 /\ s'.cu = s.cu) => \A f \in Keys(s.c) : (s.cache[f] # "~" /\ s'.cache[f] = s.cache[f]) => act'.n \in {"preview", "burst"} \/ ~\E e \in obs'.exp_bag : e.f = f]_vars
===============================================================================
