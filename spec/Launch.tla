------------------------------- MODULE Launch --------------------------------
(* When the tag starts its client: initialize() in any order with consent, previews,  *)
(* slow servers and a second copy of the script; what becomes of the analytics events *)
(* seen before the client runs; how long the page is kept hidden.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Windows, Inits, Modes, Bursts, Waits, Acts
VARIABLES s, act, obs
vars == <<s, act, obs>>
view == <<s>>
Pick(S) == S
(* Windows: sequence of [req, status, zone], "" when not given; Inits: sequence of          *)
(* [v, req, status, zone, blocking]: version of the configuration embedded in the script    *)
Known == {"granted", "pending", "denied"}
Cap == 500
Over(w, c) == IF w = "" THEN c ELSE w
(* events, as runs of consecutive numbers *)
Len1(r) == r[2] - r[1] + 1
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE Len1(Head(q)) + Total(Tail(q))
Join(q, r) == IF q # <<>> /\ q[Len(q)][2] + 1 = r[1] THEN [q EXCEPT ![Len(q)] = <<@[1], r[2]>>] ELSE Append(q, r)
RECURSIVE Glue(_, _)
Glue(p, q) == IF q = <<>> THEN p ELSE Glue(Join(p, Head(q)), Tail(q))
RECURSIVE DropFirst(_, _)
DropFirst(q, n) == IF n <= 0 THEN q ELSE IF Len1(Head(q)) <= n THEN DropFirst(Tail(q), n - Len1(Head(q))) ELSE <<<<Head(q)[1] + n, Head(q)[2]>>>> \o Tail(q)
Keep(q) == DropFirst(q, Total(q) - Cap)

(* r = [st, got, calls] *)
Still == [st |-> s, got |-> <<>>, calls |-> <<>>]
Cover(st) == IF st.hide > 0 THEN st ELSE [st EXCEPT !.hide = 1000]
Uncover(st) == [st EXCEPT !.hide = -1]
Call(r, what) == [r EXCEPT !.calls = Append(@, <<what, IF r.st.zone \in {"EU", "eu", "Eu"} THEN "EU" ELSE "">>)]
Running(r) == [r EXCEPT !.st = [Uncover(@) EXCEPT !.phase = "running", !.buf = <<>>], !.got = Glue(@, r.st.buf)]
Start(r, v, blocking) ==
  LET st == [r.st EXCEPT !.up = "client", !.phase = "starting", !.ver = v, !.on = @ \cup {<<"L", v>>}, !.flags = 1000] IN
  IF st.mode = "editor" THEN Running([r EXCEPT !.st.up = "client"])
  ELSE Call([r EXCEPT !.st = IF blocking THEN Cover(st) ELSE Uncover(st)], "flags")
Launch(r, k) ==
  LET i == Inits[k]
      r1 == [r EXCEPT !.st = [r.st EXCEPT !.zone = Over(Windows[r.st.w].zone, i.zone), !.waiting = 0, !.args = k]] IN
  IF r.st.mode \in {"preview", "extension"}
  THEN Call([r1 EXCEPT !.st = [Cover(@) EXCEPT !.phase = "fetching", !.fetch = 10000]], "configs")
  ELSE Start(r1, i.v, i.blocking)
Started(st) == st.phase \in {"fetching", "starting", "running"}
(* the status moves; pending is only a beginning *)
Move(st, to) == IF to = "pending" THEN st ELSE [st EXCEPT !.status = to]
Flags(r, ok) == Running([r EXCEPT !.st.on = @ \cup {<<"r", IF ok THEN "s" ELSE r.st.ver>>}, !.st.flags = -1])
Configs(r, ok, blocking) == LET r1 == [r EXCEPT !.st.fetch = -1] IN IF ok THEN Start(r1, "p", blocking) ELSE Start(r1, Inits[r.st.args].v, Inits[r.st.args].blocking)

Less(t, d) == IF t > 0 THEN t - d ELSE t
Elapse(st, d) == [st EXCEPT !.hide = Less(@, d), !.fetch = Less(@, d), !.flags = Less(@, d)]
RECURSIVE Pass(_, _)
Pass(r, ms) ==
  LET due == {t \in {r.st.hide, r.st.fetch, r.st.flags} : t > 0 /\ t <= ms} IN
  IF due = {} THEN [r EXCEPT !.st = Elapse(@, ms)]
  ELSE LET d == CHOOSE d \in due : \A o \in due : d <= o
           h == r.st.hide = d  f == r.st.fetch = d  g == r.st.flags = d
           r1 == [r EXCEPT !.st = Elapse(@, d)]
           r2 == IF h THEN [r1 EXCEPT !.st = Uncover(@)] ELSE r1
           r3 == IF f THEN Configs(r2, FALSE, FALSE) ELSE IF g THEN Flags(r2, FALSE) ELSE r2 IN
       Pass(r3, ms - d)

Shown(r) == [got |-> r.got, calls |-> r.calls, on_set |-> r.st.on, up |-> r.st.up, running |-> r.st.phase = "running", hidden |-> r.st.hide > 0]
Do(a, r) == a.n \in Acts /\ s' = r.st /\ act' = a /\ obs' = Shown(r)
Init == s = [w |-> 0] /\ act = [n |-> "init"] /\ obs = <<>>
On == s.w # 0
Load == ~On /\ \E w \in Pick(DOMAIN Windows), m \in Pick(Modes) :
  LET st == [w |-> w, mode |-> m, up |-> "none", phase |-> "idle", required |-> FALSE, status |-> "pending", explicit |-> FALSE, waiting |-> 0, args |-> 0, ver |-> "", zone |-> "",
             buf |-> <<>>, next |-> 1, on |-> {}, hide |-> -1, fetch |-> -1, flags |-> -1] IN
  Do([n |-> "load", w |-> Windows[w], mode |-> m], [st |-> st, got |-> <<>>, calls |-> <<>>])
(* the page sets its configuration anew, which counts from then on *)
Reset == On /\ ~Started(s) /\ \E w \in Pick(DOMAIN Windows) : w # s.w /\ Do([n |-> "window", w |-> Windows[w]], [Still EXCEPT !.st.w = w])
Initialize == On /\ \E k \in Pick(DOMAIN Inits) :
  LET i == Inits[k]  w == Windows[s.w]
      s0 == [s EXCEPT !.up = IF @ = "none" THEN "stub" ELSE @]
      gated == Over(w.req, i.req) = "yes" \/ s.waiting # 0
      want == Over(w.status, i.status)
      seed == IF want \in Known THEN want ELSE "pending"
      s1 == IF s.explicit THEN s0 ELSE Move(s0, seed)
      s2 == [s1 EXCEPT !.required = TRUE]
      r == IF Started(s) THEN [Still EXCEPT !.st = s0]
           ELSE IF ~gated THEN Launch([Still EXCEPT !.st = s0], k)
           ELSE IF s2.status = "granted" THEN Launch([Still EXCEPT !.st = s2], k)
           ELSE [Still EXCEPT !.st = [s2 EXCEPT !.waiting = k, !.phase = "deferred", !.buf = <<>>]] IN
  Do([n |-> "initialize", i |-> i], r)
Consent == On /\ \E to \in Pick(Known \cup {"yes", ""}) :
  LET st == [Move(s, to) EXCEPT !.explicit = TRUE]
      r == IF to \notin Known THEN Still
           ELSE IF st.status = "granted" /\ st.waiting # 0 /\ ~Started(s) THEN Launch([Still EXCEPT !.st = st], st.waiting)
           ELSE [Still EXCEPT !.st = st] IN
  Do([n |-> "consent", to |-> to], r)
Events == On /\ \E k \in Pick(Bursts) :
  LET run == <<s.next, s.next + k - 1>>
      s1 == [s EXCEPT !.next = @ + k] IN
  Do([n |-> "events", k |-> k, from |-> s.next],
     IF s.phase = "running" THEN [Still EXCEPT !.st = s1, !.got = <<run>>]
     ELSE IF s.phase = "deferred" THEN [Still EXCEPT !.st = s1]
     ELSE [Still EXCEPT !.st = [s1 EXCEPT !.buf = Keep(Join(@, run))]])
Reply == On /\ s.phase = "fetching" /\ \E how \in Pick({"ok", "ok", "blocking", "404", "down", "junk", "empty"}) :
  Do([n |-> "configs", how |-> how], Configs(Still, how \in {"ok", "blocking"}, how = "blocking"))
Served == On /\ s.phase = "starting" /\ \E how \in Pick({"ok", "ok", "500", "down"}) : Do([n |-> "flags", how |-> how], Flags(Still, how = "ok"))
(* the script is on the page a second time; or start() is called *)
Again == On /\ s.up = "client" /\ s.phase \in {"starting", "running"} /\ s.mode \in {"plain", "editor"} /\ \E how \in Pick({"copy", "start"}) : Do([n |-> "again", how |-> how, i |-> Inits[s.args]], Still)
Wait == On /\ \E ms \in Pick(Waits) : Do([n |-> "wait", ms |-> ms], Pass(Still, ms))
Next == Load \/ Reset \/ Initialize \/ Consent \/ Events \/ Reply \/ Served \/ Again \/ Wait
Spec == Init /\ [][Next]_vars

(* what this gives *)
Once == [][On /\ Started(s) => Started(s') /\ (s.phase = "running" => s'.on = s.on /\ obs'.calls = <<>>)]_vars
NotBefore == [][On /\ ~Started(s) /\ Started(s') => (s'.required => s'.status = "granted")]_vars
Withheld == On /\ s.phase = "deferred" => s.required /\ s.status # "granted" /\ s.up = "stub" /\ s.on = {} /\ s.buf = <<>> /\ s.hide <= 0
RequiredStays == [][On /\ s.required => s'.required]_vars
Kept == On => Total(s.buf) <= Cap /\ (s.phase = "running" => s.buf = <<>>) /\ (s.buf # <<>> => s.buf[Len(s.buf)][2] = s.next - 1)
HiddenBriefly == On => s.hide <= 1000 /\ (s.phase \in {"idle", "deferred", "running"} => s.hide <= 0)
Liveness == On /\ s.phase = "fetching" => s.fetch > 0
EditorQuiet == On /\ s.mode = "editor" => s.on = {}
===============================================================================
