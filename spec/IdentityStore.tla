---------------------------- MODULE IdentityStore ----------------------------
(* The connector's identity store. Property values are value names whose     *)
(* JSON meaning the harness supplies; distinct names are deeply unequal.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Users, Devices, Keys, Vals, Lsn, Eds, OptOuts, UpdateOps
VARIABLES ident, lsn, eds, act, obs
vars == <<ident, lsn, eds, act, obs>>
view == <<ident, lsn, eds>>

NoProps == [k \in Keys |-> "~"]
Empty == [u |-> "~", d |-> "~", o |-> "~", has |-> TRUE, p |-> NoProps]
Closed == [open |-> FALSE, i |-> Empty]
Maps == [Keys -> Vals \cup {"~"}]
Pick(S) == S        \* overridden by random choice in simulations

Init ==
  /\ ident = Empty
  /\ lsn = <<>>
  /\ eds = [e \in Eds |-> Closed]
  /\ act = [n |-> "init"]
  /\ obs = [id |-> Empty, calls |-> <<>>]

Notify(old, new) ==
  IF old = new THEN <<>> ELSE [j \in 1..Len(lsn) |-> [l |-> lsn[j], id |-> new]]

Same == UNCHANGED <<ident, lsn>> /\ obs' = [id |-> ident, calls |-> <<>>]

Open(e) ==
  /\ eds' = [eds EXCEPT ![e] = [open |-> TRUE, i |-> [ident EXCEPT !.has = TRUE]]]
  /\ act' = [n |-> "open", e |-> e] /\ Same

Edit(e, i2) == eds[e].open /\ eds' = [eds EXCEPT ![e].i = i2]

SetUser(e, u) == Edit(e, [eds[e].i EXCEPT !.u = u]) /\ act' = [n |-> "setUser", e |-> e, v |-> u] /\ Same
SetDevice(e, d) == Edit(e, [eds[e].i EXCEPT !.d = d]) /\ act' = [n |-> "setDevice", e |-> e, v |-> d] /\ Same
SetOpt(e, o) == Edit(e, [eds[e].i EXCEPT !.o = o]) /\ act' = [n |-> "setOpt", e |-> e, v |-> o] /\ Same
SetProps(e, m) == Edit(e, [eds[e].i EXCEPT !.p = m]) /\ act' = [n |-> "setProps", e |-> e, m |-> m] /\ Same

(* one operation on a property map: [op |-> "$set", m |-> map] etc. *)
ApplyOp(p, op) ==
  CASE op.op = "$set" -> [k \in Keys |-> IF op.m[k] = "~" THEN p[k] ELSE op.m[k]]
    [] op.op = "$unset" -> [k \in Keys |-> IF k \in op.ks THEN "~" ELSE p[k]]
    [] op.op = "$clearAll" -> NoProps
    [] OTHER -> p                       \* unknown operations are ignored
RECURSIVE ApplyOps(_, _)
ApplyOps(p, ops) == IF ops = <<>> THEN p ELSE ApplyOps(ApplyOp(p, Head(ops)), Tail(ops))
Update(e, ops) ==
  /\ Edit(e, [eds[e].i EXCEPT !.p = ApplyOps(@, ops)])
  /\ act' = [n |-> "update", e |-> e, ops |-> ops] /\ Same

Put(new) == ident' = new /\ obs' = [id |-> new, calls |-> Notify(ident, new)]

Commit(e) ==
  /\ eds[e].open
  /\ Put(eds[e].i)
  /\ UNCHANGED <<eds, lsn>>              \* the edit may go on, and be committed again
  /\ act' = [n |-> "commit", e |-> e]

SetDirect(u, d, o, h, m) ==
  LET new == [u |-> u, d |-> d, o |-> o, has |-> h, p |-> IF h THEN m ELSE NoProps] IN
  /\ Put(new) /\ lsn' = lsn /\ eds' = eds
  /\ act' = [n |-> "setIdentity", id |-> new]

AddL(l) ==
  /\ lsn' = IF \E j \in 1..Len(lsn) : lsn[j] = l THEN lsn ELSE Append(lsn, l)
  /\ act' = [n |-> "add", l |-> l] /\ UNCHANGED <<ident, eds>>
  /\ obs' = [id |-> ident, calls |-> <<>>]
RemL(l) ==
  /\ lsn' = SelectSeq(lsn, LAMBDA x : x # l)
  /\ act' = [n |-> "remove", l |-> l] /\ UNCHANGED <<ident, eds>>
  /\ obs' = [id |-> ident, calls |-> <<>>]
(* caller reads the identity and replaces top-level fields of what it read *)
Scribble == act' = [n |-> "scribble"] /\ UNCHANGED eds /\ Same

Next ==
  \/ \E e \in Eds : Open(e) \/ Commit(e)
  \/ \E e \in Eds, u \in Users : SetUser(e, u)
  \/ \E e \in Eds, d \in Devices : SetDevice(e, d)
  \/ \E e \in Eds, o \in OptOuts : SetOpt(e, o)
  \/ \E e \in Eds, ops \in Pick(UpdateOps) : Update(e, ops)
  \/ \E e \in Eds, m \in Pick(Maps) : SetProps(e, m)
  \/ \E u \in Pick(Users \cup {"~"}), d \in Pick(Devices \cup {"~"}), o \in Pick(OptOuts \cup {"~"}), h \in BOOLEAN, m \in Pick(Maps) :
        (h \/ m = NoProps) /\ SetDirect(u, d, o, h, m)
  \/ \E l \in Lsn : AddL(l) \/ RemL(l)
  \/ Scribble
Spec == Init /\ [][Next]_vars

(* --- properties of the design --- *)
OnlyCommitsChange == [][ident' # ident => act'.n \in {"commit", "setIdentity"}]_vars
NotifiedIffChanged == [][ (Len(obs'.calls) > 0) => (ident' # ident) ]_vars
AllNotified == [][ ident' # ident => Len(obs'.calls) = Len(lsn) ]_vars
EditorsIndependent == [][ \A e \in Eds : (eds[e].open /\ act'.n = "commit" /\ act'.e # e) => eds'[e] = eds[e] ]_vars
=============================================================================
