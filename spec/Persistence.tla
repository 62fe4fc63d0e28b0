----------------------------- MODULE Persistence -----------------------------
(* What several clients (instance names, API keys, web delivery) persist, and  *)
(* what each sees after a page load, whatever happened to the storage.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS
  Clients,     \* client names; Space(c) is where a client keeps its data
  Modes,       \* state of the browser's storage during a page
  VNames,      \* what a server returns for a variant
  Legacy,      \* entries as older releases wrote them
  FKinds, Opts, Damage, Inits, Acts

VFlags == {"v1", "v2"}
LFlags == {"f1", "f2"}
Pick(S) == S
(* k1 and k1x are API keys with the same last six characters: one space *)
Space(c) == CASE c \in {"A-k1", "A-k1x"} -> "A-k1" [] OTHER -> c
Spaces == {Space(c) : c \in Clients}

NoV == [f \in VFlags |-> "~"]
NoF == [f \in LFlags |-> "~"]
Empty == [v |-> [st |-> "ok", m |-> NoV], f |-> [st |-> "ok", m |-> NoF], o |-> [st |-> "ok", m |-> "~"]]

VARIABLES disk, mem, page, act, obs
vars == <<disk, mem, page, act, obs>>
view == <<disk, mem, page>>

(* how a persisted entry reads: "null" and unusable entries are skipped *)
Read(n) == IF n \in {"null", "num"} THEN "~" ELSE n
Readable(md) == md \in {"ok", "full"}
Writable(md) == md = "ok"
LoadV(d) == IF d.v.st = "ok" THEN [x \in VFlags |-> Read(d.v.m[x])] ELSE NoV
LoadF(d, init) == LET m == IF d.f.st = "ok" THEN d.f.m ELSE NoF IN
                  [x \in LFlags |-> IF m[x] = "~" THEN init[x] ELSE m[x]]
LoadO(d) == IF d.o.st = "ok" THEN d.o.m ELSE "~"

Store(part, val) ==   \* writes one part of the current client's space, if storage can be written
  IF ~Writable(page.md) THEN disk
  ELSE [disk EXCEPT ![Space(page.c)] = [@ EXCEPT ![part] = [st |-> "ok", m |-> val]]]

O(m, track) == [v |-> m.v, f |-> m.f, track |-> track, threw |-> FALSE]
Out(a, m, track) == a.n \in Acts /\ act' = a /\ mem' = m /\ obs' = O(m, track)

Init ==
  /\ disk = [x \in Spaces |-> Empty]
  /\ mem = [v |-> NoV, f |-> NoF, o |-> "~"]
  /\ page = [c |-> CHOOSE c \in Clients : TRUE, md |-> "ok", init |-> NoF]
  /\ act = [n |-> "init", c |-> page.c]
  /\ obs = O(mem, "~")

Load(c, md, init) ==
  LET d == IF Readable(md) THEN disk[Space(c)] ELSE Empty
      m == [v |-> LoadV(d), f |-> LoadF(d, init), o |-> LoadO(d)] IN
  /\ page' = [c |-> c, md |-> md, init |-> init]
  /\ UNCHANGED disk
  /\ Out([n |-> "page", c |-> c, mode |-> md, init |-> init], m, "~")
FetchAll(body) ==
  LET m == [mem EXCEPT !.v = body] IN
  /\ disk' = Store("v", m.v) /\ UNCHANGED page
  /\ Out([n |-> "fetch", body |-> body], m, mem.o)
FetchOne(f, n) ==
  LET m == [mem EXCEPT !.v = [@ EXCEPT ![f] = n]] IN
  /\ disk' = Store("v", m.v) /\ UNCHANGED page
  /\ Out([n |-> "fetchOne", f |-> f, v |-> n], m, mem.o)
FetchFails ==
  /\ UNCHANGED <<disk, page>> /\ Out([n |-> "fetchFails"], mem, mem.o)
Flags(body) ==
  LET filled == [x \in LFlags |-> IF body[x] = "~" THEN page.init[x] ELSE body[x]] IN
  /\ disk' = Store("f", body) /\ UNCHANGED page
  /\ Out([n |-> "flags", body |-> body], [mem EXCEPT !.f = filled], "~")
Track(t) ==
  /\ disk' = Store("o", t) /\ UNCHANGED page
  /\ Out([n |-> "track", t |-> t], [mem EXCEPT !.o = t], "~")
Clear ==
  /\ disk' = Store("v", NoV) /\ UNCHANGED page
  /\ Out([n |-> "clear"], [mem EXCEPT !.v = NoV], "~")
Lookups ==    \* lookups with exposure tracking, on whatever storage there is
  /\ UNCHANGED <<disk, page>> /\ Out([n |-> "lookups"], mem, "~")

(* Another release of the client, or anything else, wrote to the storage.      *)
Older(c, f, n) ==
  /\ disk' = [disk EXCEPT ![Space(c)] = [@ EXCEPT !.v = [st |-> "ok", m |-> [(IF @.st = "ok" THEN @.m ELSE NoV) EXCEPT ![f] = n]]]]
  /\ UNCHANGED page /\ Out([n |-> "older", c |-> c, f |-> f, v |-> n], mem, "~")
Damaged(c, part, how) ==
  /\ disk' = [disk EXCEPT ![Space(c)] = [@ EXCEPT ![part] =
        IF how = "gone" THEN Empty[part] ELSE [st |-> how, m |-> Empty[part].m]]]
  /\ UNCHANGED page /\ Out([n |-> "damage", c |-> c, part |-> part, how |-> how], mem, "~")
DamagedExposures(how) ==
  /\ UNCHANGED <<disk, page>> /\ Out([n |-> "damageExposures", how |-> how], mem, "~")

Next ==
  \/ \E c \in Pick(Clients), md \in Pick(Modes), i \in Pick(Inits) : Load(c, md, i)
  \/ \E b \in Pick([VFlags -> VNames]) : FetchAll(b)
  \/ \E f \in Pick(VFlags), n \in Pick(VNames) : FetchOne(f, n)
  \/ FetchFails
  \/ \E b \in Pick([LFlags -> FKinds]) : Flags(b)
  \/ \E t \in Pick(Opts) : Track(t)
  \/ Clear \/ Lookups
  \/ \E c \in Pick(Clients), f \in Pick(VFlags), n \in Pick(Legacy) : Older(c, f, n)
  \/ \E c \in Pick(Clients), p \in Pick({"v", "f", "o"}), h \in Pick(Damage) : Damaged(c, p, h)
  \/ \E h \in Pick({"garbage", "null", "gone"}) : DamagedExposures(h)
Spec == Init /\ [][Next]_vars

(* ---- properties of the design -------------------------------------------------- *)
OnlyOwnSpace == [][ act'.n \in {"fetch", "fetchOne", "flags", "track", "clear"} =>
   \A x \in Spaces : x # Space(page.c) => disk'[x] = disk[x] ]_vars
SeesLastStored == [][ (act'.n = "page" /\ Readable(page'.md) /\ disk[Space(page'.c)].v.st = "ok") =>
   \A f \in VFlags : mem'.v[f] = Read(disk[Space(page'.c)].v.m[f]) ]_vars
InitialOnlyFills == [][ (act'.n = "page" /\ Readable(page'.md) /\ disk[Space(page'.c)].f.st = "ok") =>
   \A f \in LFlags : disk[Space(page'.c)].f.m[f] # "~" => mem'.f[f] = disk[Space(page'.c)].f.m[f] ]_vars
NeverThrows == ~obs.threw
=============================================================================
