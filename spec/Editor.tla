--------------------------------- MODULE Editor --------------------------------
(* Amplitude's visual editor on the site's pages: who can bring it there, and what *)
(* becomes of the page's experiments meanwhile.                                     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Sources, Origins, Records, Openers, Paths, Sets, Steps, Acts
VARIABLES s, act, obs
vars == <<s, act, obs>>
view == <<s>>
Pick(S) == S
(* Sources and Origins: sequences of [id, ours]; Records: sequence of [id, there, src], *)
(* src 0 when the record names no source; Sets: sequence of sequences of [flag, page,    *)
(* at]: pages on which experiments run                                                    *)
Init0 == [up |-> FALSE, mode |-> "plain", rec |-> 1, hears |-> FALSE, st |-> "closed", load |-> -1, path |-> "", set |-> 1, debug |-> "not_started"]
Editing(st) == st.mode \in {"editor", "stuck"}
Active(st) == {<<Sets[st.set][i].flag, Sets[st.set][i].page>> : i \in {j \in DOMAIN Sets[st.set] : \E k \in DOMAIN Sets[st.set][j].at : Sets[st.set][j].at[k] = st.path}}
On(st) == IF st.mode = "editor" \/ st.mode = "stuck" THEN {} ELSE {a[1] : a \in Active(st)} \cap {"f"}
(* the editor's script is loaded once at a time, and never again once it is there      *)
Loading(st) == [st EXCEPT !.st = "opening", !.load = IF @ > 0 THEN @ ELSE 10000, !.debug = "loading"]
Setup(st) == LET r == Records[st.rec] IN
  IF r.there /\ r.src # 0 /\ Sources[r.src].ours THEN Loading(st) ELSE [st EXCEPT !.hears = TRUE, !.debug = "waiting"]
Scripts(t, u) == IF u.st = "opening" /\ t.st # "opening" THEN 1 ELSE 0

Shown(st, scripts) == IF ~st.up THEN [up |-> FALSE]
  ELSE [up |-> TRUE, scripts |-> scripts, loading |-> IF st.load > 0 THEN 1 ELSE 0, on_set |-> On(st), running |-> TRUE, banner |-> IF st.mode = "stuck" THEN 1 ELSE 0,
        active_set |-> Active(st), editing |-> Editing(st), debug |-> st.debug]
Do(a, st, scripts) == a.n \in Acts /\ s' = st /\ act' = a /\ obs' = Shown(st, scripts)
Init == s = Init0 /\ act = [n |-> "init"] /\ obs = <<>>
Open == \E p \in Pick({"", "true", "false"}), pre \in Pick({TRUE, FALSE}), o \in Pick(Openers), path \in Pick(Paths) :
  LET s0 == [Init0 EXCEPT !.up = TRUE, !.rec = s.rec, !.path = path]
      edit == p = "true" \/ Records[s.rec].there
      t == IF edit THEN IF o = "ok" THEN Setup([s0 EXCEPT !.mode = "editor"]) ELSE [s0 EXCEPT !.mode = "stuck", !.debug = "error"]
           ELSE IF pre THEN Setup([s0 EXCEPT !.mode = "preview"]) ELSE s0 IN
  Do([n |-> "open", param |-> p, preview |-> pre, opener |-> o, path |-> path], t, Scripts(s0, t))
Store == \E r \in Pick(DOMAIN Records) : r # s.rec /\ Do([n |-> "store", rec |-> Records[r].id], [s EXCEPT !.rec = r], 0)
(* someone asks for the editor                                                          *)
Message == s.up /\ \E o \in Pick(DOMAIN Origins), c \in Pick(DOMAIN Sources), y \in Pick({"OpenOverlay", "Other"}) :
  LET t == IF s.hears /\ s.st = "closed" /\ Origins[o].ours /\ Sources[c].ours /\ y = "OpenOverlay" THEN Loading(s) ELSE s IN
  Do([n |-> "message", origin |-> Origins[o].id, src |-> Sources[c].id, type |-> y], t, Scripts(s, t))
Loaded == s.up /\ s.st = "opening" /\ \E ok \in {TRUE, FALSE} :
  Do([n |-> "loaded", ok |-> ok], IF ok THEN [s EXCEPT !.st = "open", !.debug = "loaded"] ELSE [s EXCEPT !.st = "closed", !.load = -1, !.debug = "error"], 0)
Hide == s.up /\ Do([n |-> "hide"], [s EXCEPT !.load = -1], 0)
(* the editor lays out other pages; nobody else can                                     *)
Pages == s.up /\ \E k \in Pick(DOMAIN Sets) : Do([n |-> "pages", set |-> Sets[k]], IF Editing(s) THEN [s EXCEPT !.set = k] ELSE s, 0)
Nav == s.up /\ \E p \in Pick(Paths) : p # s.path /\ Do([n |-> "nav", path |-> p], [s EXCEPT !.path = p], 0)
Wait == s.up /\ \E ms \in Pick(Steps) : Do([n |-> "wait", ms |-> ms], [s EXCEPT !.load = IF @ > ms THEN @ - ms ELSE -1], 0)
Next == Open \/ Store \/ Message \/ Loaded \/ Hide \/ Pages \/ Nav \/ Wait
Spec == Init /\ [][Next]_vars

(* ---- what this gives ---- *)
OnlyOurs == [][s.up /\ act'.n = "message" /\ s'.st # s.st =>
               (\E i \in DOMAIN Origins : Origins[i].id = act'.origin /\ Origins[i].ours) /\ (\E i \in DOMAIN Sources : Sources[i].id = act'.src /\ Sources[i].ours)]_vars
NotAsked == s.up /\ s.mode = "plain" => s.st = "closed" /\ s.load = -1
Untouched == s.up /\ Editing(s) => On(s) = {}
NotForever == s.load <= 10000
================================================================================
