----------------------------- MODULE ConsentStorage -----------------------------
(* Where the tag's data goes while the visitor decides about consent: into      *)
(* memory while undecided, to the device once granted, nowhere once refused.    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Keys, Vals, DeviceVals, Acts, Modes
(* undone: what was held and removed again, so that histories with it are told apart *)
(* Keys: "loc" "ses" "pres" (ordinary items, the last named like an exempt one), *)
(* "prev" "edit" (exempt preview and editor state), "prov" "sprov" (default user  *)
(* provider: one name in both stores), "id" (identity), "cid" (identity cookie), "cob"     *)
(* (another cookie), "sess" (session cookie, kept in memory as well)             *)
VARIABLES s, act, obs
vars == <<s, act, obs>>
view == <<s>>
Pick(S) == S
(* an item: whether it is there and readable, its fields                         *)
Item(is, x, fs, w1, w2, d) == [is |-> is, x |-> x, fs |-> fs, w1 |-> w1, w2 |-> w2, d |-> d]
None == Item("none", "~", "~", "~", "~", "~")
Cookies == {"cid", "cob"} \cap Keys
Plain == Keys \ {"cid", "cob", "sess"}
Exempt == {"prev", "edit"}
NoPend == [k \in Keys |-> None]
Init0 == [required |-> FALSE, status |-> "pending", dev |-> [k \in Keys |-> None], pend |-> NoPend, mem |-> None, armed |-> FALSE, usable |-> TRUE, mode |-> "ok", undone |-> {}]
Withheld(st) == st.required /\ st.status # "granted"
Pending(st) == st.required /\ st.status = "pending"
Gated(st, k) == Withheld(st) /\ k \notin Exempt
Readable(v) == IF v.is = "obj" THEN v ELSE None
Or(a, b) == IF a # "~" THEN a ELSE b
(* what was held, with the identity the device already has *)
Merged(k, p, dv) ==
  IF dv.is # "obj" THEN p
  ELSE CASE k \in {"prov", "sprov"} -> [p EXCEPT !.fs = Or(dv.fs, @)]
         [] k = "id" -> [p EXCEPT !.w1 = Or(dv.w1, @), !.w2 = Or(dv.w2, @), !.d = Or(dv.d, @)]
         [] k = "cid" -> [p EXCEPT !.w2 = Or(dv.w2, @), !.fs = Or(dv.fs, @)]
         [] OTHER -> p
(* writing to the device; a full or blocked store keeps what it has *)
Blocked(st, k) == IF k \in {"cid", "cob", "sess"} THEN st.mode = "nocookies" ELSE st.mode = "full"
Put(st, k, v) == IF Blocked(st, k) THEN st ELSE [st EXCEPT !.dev[k] = v]
(* the session cookie gives up on the cookie for good after a failed write *)
PutSess(st, v) == IF ~st.usable THEN st ELSE IF Blocked(st, "sess") THEN [st EXCEPT !.usable = (st.dev["sess"] = v)] ELSE [st EXCEPT !.dev["sess"] = v]
RECURSIVE FlushK(_, _)
FlushK(st, ks) ==
  IF ks = {} THEN st
  ELSE LET k == CHOOSE x \in ks : TRUE IN
       FlushK(IF st.pend[k] = None THEN st
              ELSE IF Blocked(st, k) THEN st ELSE [st EXCEPT !.dev[k] = Merged(k, st.pend[k], st.dev[k])], ks \ {k})
Flush(st) ==
  LET a == [FlushK(st, Plain \cup Cookies) EXCEPT !.pend = NoPend] IN
  IF "sess" \in Keys /\ a.armed /\ a.mem # None THEN PutSess(a, a.mem) ELSE a
Decided(st, to) ==
  IF to = "denied" THEN [st EXCEPT !.status = to, !.pend = NoPend, !.armed = FALSE, !.undone = {}]
  ELSE [Flush([st EXCEPT !.status = to]) EXCEPT !.armed = FALSE, !.undone = {}]
(* one operation; the state after and what it answers *)
Op(st, o) ==
  LET k == o.k IN
  CASE o.op = "get" ->
         [st |-> st, v |-> IF k = "sess"
                           THEN IF ~Withheld(st) /\ st.usable /\ st.dev[k].is = "obj" THEN st.dev[k] ELSE st.mem
                           ELSE IF Gated(st, k) THEN st.pend[k] ELSE Readable(st.dev[k])]
    [] o.op = "set" ->
         [st |-> IF k = "sess"
                 THEN LET m == [st EXCEPT !.mem = o.v] IN
                      IF Withheld(st) THEN IF Pending(st) THEN [m EXCEPT !.armed = TRUE] ELSE m ELSE PutSess(m, o.v)
                 ELSE IF Gated(st, k) THEN IF Pending(st) THEN [st EXCEPT !.pend[k] = o.v] ELSE st
                 ELSE Put(st, k, o.v), v |-> None]
    [] o.op = "remove" ->
         [st |-> IF k = "sess"
                 THEN LET m == [st EXCEPT !.mem = None] IN IF Pending(st) THEN m ELSE IF Blocked(st, k) THEN m ELSE [m EXCEPT !.dev[k] = None]
                 ELSE IF Pending(st) /\ k \notin Exempt THEN [st EXCEPT !.pend[k] = None, !.undone = @ \cup {j \in {k} : st.pend[j] # None}]
                 ELSE IF k \in Cookies /\ Blocked(st, k) THEN st ELSE [st EXCEPT !.dev[k] = None], v |-> None]
Do(a, st, v) == a.n \in Acts /\ s' = st /\ act' = a /\ obs' = [dev |-> st.dev, v |-> v]
Init == s = Init0 /\ act = [n |-> "init"] /\ obs = [dev |-> s.dev, v |-> None]
Require == ~s.required /\ s.pend = NoPend /\ Do([n |-> "require"], [s EXCEPT !.required = TRUE], None)
Ops == {[op |-> "get", k |-> k] : k \in Keys} \cup {[op |-> "remove", k |-> k] : k \in Keys} \cup {[op |-> "set", k |-> k, v |-> v] : k \in Keys, v \in Vals}
Use(o) == LET r == Op(s, o) IN Do([n |-> "use", o |-> o], r.st, r.v)
Decide(to) == s.status # to /\ Do([n |-> "decide", to |-> to], Decided(s, to), None)
(* decisions and an operation in the same instant *)
DecideThen(tos, o) ==
  /\ s.status # tos[1]
  /\ LET a == Decided(s, tos[1])
         b == IF Len(tos) = 2 THEN Decided(a, tos[2]) ELSE a
         r == Op(b, o) IN
     Do([n |-> "decide-then", tos |-> tos, o |-> o], r.st, r.v)
(* granted and taken back in the same instant: cookies, written a moment later, are not written *)
Flip(o) ==
  /\ s.status # "granted"
  /\ LET a == Decided([s EXCEPT !.pend = [k \in Keys |-> IF k \in Cookies THEN None ELSE @[k]]], "granted")
         r == Op(Decided(a, "denied"), o) IN
     Do([n |-> "flip", tos |-> <<"granted", "denied">>, o |-> o], r.st, r.v)
(* a cookie being set while consent is refused is not set *)
SetThenDeny(o) ==
  /\ o.op = "set" /\ s.status = "granted"
  /\ LET r == IF o.k \in Cookies /\ s.required THEN s ELSE Op(s, o).st IN
     Do([n |-> "set-then-deny", o |-> o], Decided(r, "denied"), None)
(* what an earlier visit or another tab left there *)
Device(k, v) == s.dev[k] # v /\ Do([n |-> "device", k |-> k, v |-> v], [s EXCEPT !.dev[k] = v], None)
Mode(m) == s.mode # m /\ Do([n |-> "mode", m |-> m], [s EXCEPT !.mode = m], None)
Next ==
  \/ Require
  \/ \E o \in Pick(Ops) : Use(o)
  \/ \E o \in Pick(Ops) : Use(o)
  \/ \E t \in Pick({"granted", "denied"}) : Decide(t)
  \/ \E t \in Pick({<<"granted">>, <<"denied">>, <<"denied", "granted">>}), o \in Pick(Ops) : DecideThen(t, o)
  \/ \E o \in Pick(Ops) : Flip(o) \/ SetThenDeny(o)
  \/ \E k \in Pick(Keys), v \in Pick(DeviceVals) : Device(k, v)
  \/ \E z \in Pick(1..3), m \in Pick(Modes) : z = 1 /\ Mode(m)
Spec == Init /\ [][Next]_vars
(* undecided: the tag writes nothing to the device but the exempt state *)
NoTrace == [][(Pending(s) /\ act'.n = "use") => \A k \in Keys \ Exempt : s'.dev[k] = s.dev[k]]_vars
(* refused: it only removes *)
NoWriteRefused == [][(Withheld(s) /\ Withheld(s') /\ act'.n \in {"use", "decide", "decide-then"}) => \A k \in Keys \ Exempt : s'.dev[k] \in {s.dev[k], None}]_vars
NothingHeldOnceDecided == ~Pending(s) => s.pend = NoPend
OwnReads == [][(Withheld(s) /\ act'.n = "use" /\ act'.o.op = "get" /\ act'.o.k \in Plain \ Exempt) => obs'.v = s.pend[act'.o.k]]_vars
DeviceIdentityKept == [][(act'.n = "decide" /\ act'.to = "granted" /\ "id" \in Keys /\ s.dev["id"].is = "obj" /\ s.dev["id"].w1 # "~") => s'.dev["id"].w1 = s.dev["id"].w1]_vars
===============================================================================
