------------------------------ MODULE Triggers -------------------------------
(* Which pages of an experiment are active: the address rule of a page, and its     *)
(* trigger having occurred since the last navigation; what follows for the changes   *)
(* on screen, the impressions, and those who asked to be told.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Confs, Urls, Scrolls, Waits, Acts
VARIABLES s, act, obs
vars == <<s, act, obs>>
view == <<s>>
Pick(S) == S
Range(q) == {q[i] : i \in DOMAIN q}
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
(* A page: [id, f, t, urls, a, m, n]; urls = <<>> for any; n = -1 for not given.           *)
(*  url | manual a = name | event a = name, n = size wanted | appeared a = selector        *)
(*  visible a, n = percent | act a, m = click/hover/focus, n = ms | exit n = ms            *)
(*  time n = ms | scroll m = percent, n; m = element, a, n = offset                        *)
Pages(c) == Range(Confs[c].pages)
Of(c, t) == {p \in Pages(c) : p.t = t}
FlagsOf(P) == {p.f : p \in P}
Path(u) == u[1]                                     \* an address: <<path, query>>
UrlFits(p, u) == Len(p.urls) = 0 \/ Path(u) \in Range(p.urls)
Pos(n) == Max(n, 0)
(* The document: two blocks, the first with a part in it.                                  *)
Els == {"e1", "e2", "e3"}
Match(sel) == CASE sel = ".x" -> {"e1", "e3"} [] sel = ".y" -> {"e2"} [] sel = "#e3" -> {"e3"} [] sel = ".x .y" -> {"e2"} [] sel = "div" -> {"e1", "e3"} [] OTHER -> {}
Up(e) == CASE e = "e2" -> <<"e2", "e1">> [] e = "none" -> <<>> [] OTHER -> <<e>>
Closest(e, sel) == LET u == Up(e)
                       hit == {i \in DOMAIN u : u[i] \in Match(sel)} IN
                   IF hit = {} THEN "none" ELSE u[CHOOSE i \in hit : \A j \in hit : i <= j]
Within(e, anc) == anc \in Range(Up(e))
Box(e) == CASE e = "e1" -> [t |-> 100, h |-> 100] [] e = "e2" -> [t |-> 120, h |-> 50] [] e = "e3" -> [t |-> 1500, h |-> 400]
View == 1000
Tall == 3000
Whole(e) == IF e = "e2" THEN "e1" ELSE e
Present(st, e) == Whole(e) \in st.there
Hidden(st, e) == \E x \in Range(Up(e)) : x \in st.off      \* as laid out
Found(st, sel) == {e \in Match(sel) : Present(st, e)}
(* what is looked for *)
VisKeys(c) == {<<p.a, Pos(p.n)>> : p \in Of(c, "visible")}
ScrKeys(c) == {<<p.a, Pos(p.n)>> : p \in {q \in Of(c, "scroll") : q.m = "element"}}
Sels(c) == {p.a : p \in Of(c, "appeared")} \cup {k[1] : k \in VisKeys(c) \cup ScrKeys(c)}
Interactions(c, m) == {<<p.a, Pos(p.n)>> : p \in {q \in Of(c, "act") : q.m = m}}
Times(c) == {p.n : p \in Of(c, "time")}
ExitMin(c) == LET ns == {Pos(p.n) : p \in Of(c, "exit")} IN CHOOSE n \in ns : \A o \in ns : n <= o

IsActive(st, p, msg) ==
  UrlFits(p, st.url) /\
  CASE p.t = "url" -> TRUE
    [] p.t = "manual" -> p.a \in st.man
    [] p.t = "event" -> p.id \in st.ev \/ (msg.name = p.a /\ (p.n = -1 \/ msg.n = p.n))
    [] p.t = "appeared" -> p.a \in st.app
    [] p.t = "visible" -> <<p.a, Pos(p.n)>> \in st.vis
    [] p.t = "exit" -> p.n = -1 \/ msg.n >= p.n
    [] p.t = "act" -> <<p.m, p.a, Pos(p.n)>> \in st.fired
    [] p.t = "time" -> msg.n >= p.n
    [] p.t = "scroll" -> IF p.m = "percent" THEN st.top >= p.n ELSE <<p.a, Pos(p.n)>> \in st.scr
NoMsg == [name |-> "", n |-> 0]
Msg(name, n) == [name |-> name, n |-> n]
(* r = [st, pubs]: pubs counts the occasions on which the pages were looked at *)
Look(st, t, msg) ==
  LET P == Of(st.c, t)
      on == {p \in P : IsActive(st, p, msg)} IN
  [st EXCEPT !.act = (@ \ {p.id : p \in P}) \cup {p.id : p \in on}, !.ev = IF t = "event" THEN @ \cup {p.id : p \in on} ELSE @]
Publish(r, t, msg) == IF Of(r.st.c, t) = {} THEN r ELSE [st |-> Look(r.st, t, msg), pubs |-> r.pubs + 1]

Appeared(st) == {sel \in Sels(st.c) : \E e \in Found(st, sel) : e \notin st.off}
ObsKeys(c) == {<<"visible", k[1], k[2]>> : k \in VisKeys(c)} \cup {<<"scroll", k[1], k[2]>> : k \in ScrKeys(c)}
Watch(st) ==
  LET want == {<<k, e>> \in ObsKeys(st.c) \X Els : e \in Found(st, k[2])} IN
  [st EXCEPT !.seen = TLCEval([x \in DOMAIN @ \cup want |-> IF x \in DOMAIN @ THEN @[x] ELSE <<-1, FALSE>>])]
Check(r) == Publish([r EXCEPT !.st = Watch([@ EXCEPT !.app = @ \cup Appeared(r.st)])], "appeared", NoMsg)
(* what the browser reports of what is in view *)
Measure1(st, x) ==
  LET k == x[1]  e == x[2]  b == Box(e)
      lo == st.y  hi == st.y + View + (IF k[1] = "scroll" THEN k[3] ELSE 0)
      in == Present(st, e) /\ ~Hidden(st, e) /\ b.t <= hi /\ b.t + b.h >= lo
      over == IF in THEN Max(0, Min(hi, b.t + b.h) - Max(lo, b.t)) ELSE 0
      ratio == (over * 100) \div b.h
      want == IF k[1] = "scroll" THEN 0 ELSE k[3] IN
  [in |-> in, enough |-> in /\ ratio >= want, now |-> <<IF in /\ ratio >= want THEN 1 ELSE 0, in>>]
Measure(r) ==
  LET st == r.st
      news == TLCEval({x \in DOMAIN st.seen : Measure1(st, x).now # st.seen[x]})
      vis == {x \in news : x[1][1] = "visible" /\ Measure1(st, x).enough}
      scr == {x \in news : x[1][1] = "scroll" /\ Measure1(st, x).in}
      s1 == [st EXCEPT !.seen = TLCEval([x \in DOMAIN @ |-> IF x \in news THEN Measure1(st, x).now ELSE @[x]]),
                       !.vis = @ \cup {<<x[1][2], x[1][3]>> : x \in vis}, !.scr = @ \cup {<<x[1][2], x[1][3]>> : x \in scr}]
      r1 == [st |-> s1, pubs |-> r.pubs + Cardinality(vis \cup scr)]
      r2 == IF vis = {} THEN r1 ELSE [r1 EXCEPT !.st = Look(@, "visible", NoMsg)] IN
  IF scr = {} THEN r2 ELSE [r2 EXCEPT !.st = Look(@, "scroll", NoMsg)]

(* timers: <<kind, selector, ms, element>> -> time left *)
Set(fn, k, v) == TLCEval([x \in DOMAIN fn \cup {k} |-> IF x = k THEN v ELSE fn[x]])
SetAll(fn, ks, v(_)) == TLCEval([x \in DOMAIN fn \cup ks |-> IF x \in ks THEN v(x) ELSE fn[x]])
Drop(fn, ks) == TLCEval([x \in DOMAIN fn \ ks |-> fn[x]])
Kind(st, k) == {x \in DOMAIN st.timers : x[1] = k}
TimeKeys(c) == {<<"time", "", n, "">> : n \in Times(c)}
(* durations start over; none runs while the tab is hidden *)
Restart(st, pending) == [st EXCEPT !.clock = pending, !.timers = IF st.hidden THEN Drop(@, Kind(st, "time"))
                          ELSE SetAll(Drop(@, Kind(st, "time")), pending, LAMBDA x : x[3])]
Changed(st) == [st EXCEPT !.timers = Set(IF <<"mutmax", "", 0, "">> \in DOMAIN @ THEN @ ELSE Set(@, <<"mutmax", "", 0, "">>, 200), <<"mut", "", 0, "">>, 100)]
Reset(r) ==
  LET st == r.st
      s1 == [st EXCEPT !.app = {}, !.vis = {}, !.scr = {}, !.fired = {}, !.man = {}, !.ev = {}, !.top = 0, !.age = 0,
                       !.timers = Drop(@, Kind(st, "click")), !.act = @ \cap {p.id : p \in Of(st.c, "url")}] IN
  Check([r EXCEPT !.st = Restart(s1, TimeKeys(st.c))])
Go(r, u) == IF u = r.st.url THEN r
            ELSE LET r1 == Reset(Publish([r EXCEPT !.st.url = u], "url", NoMsg)) IN [r1 EXCEPT !.pubs = @ + 2]
Fired(r, key) == Publish([r EXCEPT !.st.fired = @ \cup {key}], "act", NoMsg)
RECURSIVE FireAll(_, _)
FireAll(r, ks) == IF ks = {} THEN r ELSE LET k == CHOOSE k \in ks : TRUE IN FireAll(Fired(r, k), ks \ {k})

(* one timer runs out *)
Alarm(r, x) ==
  LET r0 == [r EXCEPT !.st.timers = Drop(@, {x})] IN
  CASE x[1] = "click" -> Fired(r0, <<"click", x[2], x[3]>>)
    [] x[1] \in {"hover", "focus"} -> Fired(r0, <<x[1], x[2], x[3]>>)
    [] x[1] = "time" -> [Publish(r0, "time", Msg("", x[3])) EXCEPT !.st.clock = @ \ {x}]
    [] x[1] \in {"mut", "mutmax"} -> Measure(Check([r0 EXCEPT !.st.timers = Drop(@, {<<"mut", "", 0, "">>, <<"mutmax", "", 0, "">>})]))
    [] x[1] = "frame" -> LET p == (r0.st.y * 100) \div (Tall - View) IN
                         IF p > r0.st.top THEN Publish([r0 EXCEPT !.st.top = p], "scroll", NoMsg) ELSE r0
    [] x[1] = "listen" -> [r0 EXCEPT !.st.ears = TRUE]
Elapse(st, ms) == [st EXCEPT !.age = @ + ms, !.timers = TLCEval([x \in DOMAIN @ |-> @[x] - ms])]
RECURSIVE Pass(_, _)
Pass(r, ms) ==
  LET due == {x \in DOMAIN r.st.timers : r.st.timers[x] <= ms} IN
  IF due = {} THEN [r EXCEPT !.st = Elapse(@, ms)]
  ELSE LET x == CHOOSE x \in due : \A o \in due : r.st.timers[x] <= r.st.timers[o]
           d == r.st.timers[x] IN
       Pass(Alarm([r EXCEPT !.st = Elapse(@, d)], x), ms - d)

(* the pointer, or the focus, moves from one element to another *)
Shift(r, m, from, to) ==
  LET K == Interactions(r.st.c, m)
      left == {Closest(from, k[1]) : k \in K} \ {"none"}
      gone == {e \in left : ~Within(to, e)}
      r1 == [r EXCEPT !.st.timers = Drop(@, {x \in DOMAIN @ : x[1] = m /\ x[4] \in gone})]
      hits == {k \in K : Closest(to, k[1]) # "none" /\ <<m, k[1], k[2]>> \notin r.st.fired}
      slow == {<<m, k[1], k[2], Closest(to, k[1])>> : k \in {h \in hits : h[2] > 0}} \ DOMAIN r1.st.timers
      r2 == [r1 EXCEPT !.st.timers = SetAll(@, slow, LAMBDA x : x[3])] IN
  FireAll(r2, {<<m, k[1], k[2]>> : k \in {h \in hits : h[2] = 0}})
Press(r, e) ==
  LET hits == {k \in Interactions(r.st.c, "click") : Closest(e, k[1]) # "none" /\ <<"click", k[1], k[2]>> \notin r.st.fired}
      slow == {<<"click", k[1], k[2], "">> : k \in {h \in hits : h[2] > 0}} \ DOMAIN r.st.timers
      r1 == [r EXCEPT !.st.timers = SetAll(@, slow, LAMBDA x : x[3])] IN
  FireAll(r1, {<<"click", k[1], k[2]>> : k \in {h \in hits : h[2] = 0}})

(* the step as a whole: changes on screen, impressions, who is told *)
OnFlags(st) == {p.f : p \in {q \in Pages(st.c) : q.id \in st.act}}
Settled(was, r, moved) ==
  LET st == r.st
      on == OnFlags(st)
      fresh == moved /\ Path(st.url) # Path(was.url)
      known == IF fresh THEN {} ELSE was.counted IN
  [st |-> [st EXCEPT !.counted = known \cup on], muts_set |-> on, exp_set |-> on \ known, pages_set |-> st.act,
   told |-> IF r.pubs <= 1 THEN (IF st.act # was.act THEN 1 ELSE 0) ELSE "*", notified |-> IF st.act # was.act THEN TRUE ELSE IF r.pubs <= 1 THEN FALSE ELSE "*"]
Do(a, r, moved) ==
  LET d == Settled(s, r, moved) IN
  a.n \in Acts /\ s' = d.st /\ act' = a
  /\ obs' = [muts_set |-> d.muts_set, exp_set |-> d.exp_set, pages_set |-> d.pages_set, told |-> d.told, notified |-> d.notified]
Still == [st |-> s, pubs |-> 0]
Init == s = [c |-> 0] /\ act = [n |-> "init"] /\ obs = <<>>
On == s.c # 0
Fresh(c, u, there, off, hidden) ==
  [c |-> c, url |-> u, there |-> there, off |-> off, y |-> 0, hidden |-> hidden, act |-> {}, man |-> {}, ev |-> {}, app |-> {}, vis |-> {}, scr |-> {}, fired |-> {},
   top |-> 0, age |-> 0, clock |-> {}, ears |-> Of(c, "exit") # {} /\ ExitMin(c) = 0, seen |-> <<>>, hover |-> "none", focus |-> "none", counted |-> {},
   timers |-> IF Of(c, "exit") # {} /\ ExitMin(c) > 0 THEN Set(<<>>, <<"listen", "", 0, "">>, ExitMin(c)) ELSE <<>>]
Load == ~On /\ \E c \in Pick(DOMAIN Confs), u \in Pick(Urls), there \in Pick(SUBSET {"e1", "e3"}), off \in Pick({{}, {}, {"e1"}, {"e2"}, {"e3"}}), hidden \in Pick({FALSE, FALSE, FALSE, TRUE}) :
  LET st == Fresh(c, u, there, off, hidden)
      r == Measure(Reset(Publish([st |-> st, pubs |-> 0], "url", NoMsg)))
      on == OnFlags(r.st)
      a == [n |-> "load", conf |-> Confs[c], url |-> u, there |-> there, off |-> off, hidden |-> hidden] IN
  /\ a.n \in Acts /\ act' = a /\ s' = [r.st EXCEPT !.counted = on]
  /\ obs' = [muts_set |-> on, exp_set |-> on, pages_set |-> r.st.act, told |-> "*", notified |-> "*"]
Nav == On /\ \E u \in Pick(Urls), how \in Pick({"push", "replace", "back"}) : Do([n |-> "nav", url |-> u, how |-> how], Measure(Go(Still, u)), TRUE)
Names == {"n1", "n2"}
Toggle == On /\ \E a \in Pick(Names), on \in Pick({TRUE, TRUE, FALSE}) :
  Do([n |-> "toggle", name |-> a, on |-> on], Publish([Still EXCEPT !.st.man = IF on THEN @ \cup {a} ELSE @ \ {a}], "manual", NoMsg), FALSE)
Event == On /\ \E a \in Pick({"buy", "view"}), n \in Pick({1, 2}) : Do([n |-> "event", name |-> a, size |-> n], Publish(Still, "event", Msg(a, n)), FALSE)
Noticed(st, e, added) == \E sel \in Sels(st.c) : Found(st, sel) # {} \/ (added /\ (e \in Match(sel) \/ (e = "e1" /\ "e2" \in Match(sel))))
Add == On /\ \E e \in Pick({"e1", "e3"}), hide \in Pick({"", "", "self", "part"}) :
  /\ e \notin s.there
  /\ LET mine == {e} \cup (IF e = "e1" THEN {"e2"} ELSE {})
         st == [s EXCEPT !.there = @ \cup {e}, !.off = (@ \ mine) \cup (IF hide = "self" THEN {e} ELSE IF hide = "part" /\ e = "e1" THEN {"e2"} ELSE {}),
                         !.seen = [x \in {y \in DOMAIN @ : y[2] \notin mine} |-> @[x]]]
         s1 == IF Noticed(st, e, TRUE) THEN Changed(st) ELSE st IN
     Do([n |-> "add", e |-> e, hide |-> hide], Measure([Still EXCEPT !.st = s1]), FALSE)
Remove == On /\ \E e \in Pick({"e1", "e3"}) :
  /\ e \in s.there /\ ~Within(s.hover, e) /\ ~Within(s.focus, e)
  /\ LET st == [s EXCEPT !.there = @ \ {e}]
         s1 == IF Noticed(st, e, FALSE) THEN Changed(st) ELSE st IN
     Do([n |-> "remove", e |-> e], Measure([Still EXCEPT !.st = s1]), FALSE)
Touches(c, e) == \E sel \in Sels(c) : e \in Match(sel) \/ (e = "e1" /\ "e2" \in Match(sel))
Show == On /\ \E e \in Pick(Els) :
  /\ Present(s, e) /\ ~Within(s.hover, e) /\ ~Within(s.focus, e)
  /\ LET st == [s EXCEPT !.off = IF e \in @ THEN @ \ {e} ELSE @ \cup {e}]
         s1 == IF Touches(s.c, e) THEN Changed(st) ELSE st IN
     Do([n |-> "show", e |-> e, on |-> e \in s.off], Measure([Still EXCEPT !.st = s1]), FALSE)
Scroll == On /\ \E y \in Pick(Scrolls) :
  LET per == \E p \in Of(s.c, "scroll") : p.m = "percent"
      st == [s EXCEPT !.y = y, !.timers = IF per /\ <<"frame", "", 0, "">> \notin DOMAIN @ THEN Set(@, <<"frame", "", 0, "">>, 16) ELSE @] IN
  Do([n |-> "scroll", y |-> y], Measure([Still EXCEPT !.st = st]), FALSE)
Reach(st) == {e \in Els : Present(st, e) /\ ~Hidden(st, e)}
Click == On /\ \E e \in Pick(Reach(s) \cup {"none"}) : Do([n |-> "click", e |-> e], Press(Still, e), FALSE)
Hover == On /\ \E e \in Pick(Reach(s) \cup {"none"}) : e # s.hover /\ Do([n |-> "hover", from |-> s.hover, e |-> e], Shift([Still EXCEPT !.st.hover = e], "hover", s.hover, e), FALSE)
Focus == On /\ \E e \in Pick(Reach(s) \cup {"none"}) : e # s.focus /\ Do([n |-> "focus", from |-> s.focus, e |-> e], Shift([Still EXCEPT !.st.focus = e], "focus", s.focus, e), FALSE)
Exit == On /\ \E y \in Pick({0, 0, 50, 51}), to \in Pick({"none", "none", "e1"}) :
  Do([n |-> "exit", y |-> y, to |-> to], IF s.ears /\ y <= 50 /\ to = "none" THEN Publish(Still, "exit", Msg("", s.age)) ELSE Still, FALSE)
Hide == On /\ LET st == [s EXCEPT !.hidden = ~@] IN
  Do([n |-> "hide", on |-> ~s.hidden], [Still EXCEPT !.st = IF Of(s.c, "time") = {} THEN st ELSE Restart(st, st.clock)], FALSE)
Wait == On /\ \E ms \in Pick(Waits) : Do([n |-> "wait", ms |-> ms], Pass(Still, ms), FALSE)
Next == Load \/ Nav \/ Toggle \/ Event \/ Add \/ Remove \/ Show \/ Scroll \/ Click \/ Hover \/ Focus \/ Exit \/ Hide \/ Wait
Spec == Init /\ [][Next]_vars
(* what this gives *)
AddressHolds == On => \A p \in Pages(s.c) : p.id \in s.act => UrlFits(p, s.url)
UrlExact == On => \A p \in Of(s.c, "url") : p.id \in s.act <=> UrlFits(p, s.url)
Occurred == On => \A p \in Pages(s.c) : UrlFits(p, s.url) =>
  CASE p.t = "manual" -> (p.id \in s.act <=> p.a \in s.man)
    [] p.t = "appeared" -> (p.id \in s.act <=> p.a \in s.app)
    [] p.t = "visible" -> (p.id \in s.act <=> <<p.a, Pos(p.n)>> \in s.vis)
    [] p.t = "act" -> (p.id \in s.act <=> <<p.m, p.a, Pos(p.n)>> \in s.fired)
    [] p.t = "scroll" -> (p.id \in s.act <=> IF p.m = "percent" THEN s.top >= p.n ELSE <<p.a, Pos(p.n)>> \in s.scr)
    [] p.t = "event" -> (p.id \in s.act <=> p.id \in s.ev)
    [] p.t = "time" -> (p.id \in s.act <=> <<"time", "", p.n, "">> \notin s.clock)
    [] p.t = "exit" -> (p.id \in s.act => s.age >= Pos(p.n))
    [] OTHER -> TRUE
(* nothing but an occurrence of the right kind, a navigation or a switch changes a page *)
Stays == [][On /\ act'.n # "nav" /\ act'.n # "toggle" => s.act \subseteq s'.act]_vars
Counted == [][On /\ act'.n # "nav" => obs'.exp_set \cap s.counted = {}]_vars
===============================================================================
