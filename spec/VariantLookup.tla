---------------------------- MODULE VariantLookup ----------------------------
(* What a lookup of one flag answers, given every place an answer may come    *)
(* from, and the exposure that results.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Sources, Stored, Fetched, Initials, Fallbacks, FlagKinds, Inlines, Autos, Legacies

(* Variants by name. key/value "~": not present. def: marked a default.        *)
(* tr: FALSE when exposure tracking is turned off. ek: experiment key.         *)
(* ev: event type set on the variant; web: delivered by web experiment.        *)
V(k, v) == [key |-> k, value |-> v, ek |-> "~", def |-> FALSE, tr |-> TRUE, ev |-> "~", web |-> FALSE, meta |-> FALSE]
NoV == V("~", "~")
Var(n) ==
  CASE n = "sOn"  -> [V("s", "s") EXCEPT !.ek = "exp-s", !.meta = TRUE]
    [] n = "sOn2" -> V("s2", "s2")
    [] n = "sKV"  -> V("sk", "sv")                                    \* key differs from value
    [] n = "sDef" -> [V("off", "~") EXCEPT !.def = TRUE, !.meta = TRUE]
    [] n = "sDefV" -> [V("off", "sdv") EXCEPT !.def = TRUE, !.meta = TRUE, !.ek = "exp-d"]
    [] n = "sNoTr" -> [V("s", "s") EXCEPT !.tr = FALSE, !.meta = TRUE]
    [] n = "sEv" -> [V("s", "s") EXCEPT !.ev = "custom", !.meta = TRUE]
    [] n = "sWeb" -> [V("s", "s") EXCEPT !.web = TRUE, !.meta = TRUE]
    [] n = "sEvWeb" -> [V("s", "s") EXCEPT !.web = TRUE, !.ev = "custom", !.meta = TRUE]
    [] n = "sStr" -> V("str", "str")                                  \* saved by an old release
    [] n = "sVal" -> V("val", "val")                                  \* old: value without key
    [] n = "sExp" -> [V("se", "se") EXCEPT !.ek = "exp-e", !.meta = TRUE]  \* old: experiment key beside
    [] n = "sEmpty" -> NoV
    [] n = "iOn" -> [V("i", "i") EXCEPT !.ek = "exp-i", !.meta = TRUE]
    [] n = "iStr" -> V("istr", "istr")
    [] n = "iDef" -> [V("ioff", "~") EXCEPT !.def = TRUE, !.meta = TRUE]
    [] n = "iNoTr" -> [V("i", "i") EXCEPT !.tr = FALSE, !.meta = TRUE]
    [] n = "fStr" -> V("fb", "fb")
    [] n = "fObj" -> [V("~", "fov") EXCEPT !.ek = "~"]                \* only a value
    [] n = "fKey" -> V("fk", "fkv")
    [] n = "fEmpty" -> NoV
    [] n = "fBlank" -> V("", "")                                      \* the empty string
    [] n = "cStr" -> V("cf", "cf")
    [] n = "cObj" -> V("ck", "cv")
    [] n = "lOn" -> [V("l", "l") EXCEPT !.ek = "exp-l", !.meta = TRUE]
    [] n = "lDef" -> [V("off", "~") EXCEPT !.def = TRUE, !.meta = TRUE]
    [] n = "lNoTr" -> [V("l", "l") EXCEPT !.tr = FALSE, !.meta = TRUE]
    [] n = "lWeb" -> [V("l", "l") EXCEPT !.web = TRUE, !.meta = TRUE]
    [] n = "rOn" -> [V("r", "r") EXCEPT !.meta = TRUE]
    [] n = "rDef" -> [V("off", "~") EXCEPT !.def = TRUE, !.meta = TRUE]
    [] OTHER -> NoV
Evaluated(fk) == IF fk \in {"lOn", "lDef", "lNoTr", "lWeb", "rOn", "rDef"} THEN fk ELSE "~"  \* lNone, rNone: no result
IsLocal(fk) == fk \in {"lOn", "lDef", "lNoTr", "lWeb", "lNone"}

VARIABLES cfg, stored, leg, act, obs
vars == <<cfg, stored, leg, act, obs>>
view == <<cfg, stored, leg>>
Pick(S) == S

(* A resolution: name of the variant ("~": none), where from, and whether a    *)
(* default variant was passed over.                                            *)
Res(n, from, hd) == [n |-> n, from |-> from, hd |-> hd]
Tail_(def, defFrom, inline, useInitial) ==
  IF inline # "~" THEN Res(inline, "inline", def # "~")
  ELSE IF useInitial /\ cfg.initial # "~" THEN Res(cfg.initial, "secondary-initial", def # "~")
  ELSE IF cfg.fallback \notin {"~", "fEmpty"} THEN Res(cfg.fallback, "config", def # "~")
  ELSE IF def # "~" THEN Res(def, defFrom, TRUE)
  ELSE Res("~", "none", FALSE)

FromStored(inline, useInitial) ==
  IF stored # "~" /\ ~Var(stored).def THEN Res(stored, "storage", FALSE)
  ELSE Tail_(stored, "storage", inline, useInitial)
BySource(inline) ==
  IF cfg.source = "localStorage" THEN FromStored(inline, TRUE)
  ELSE IF cfg.initial # "~" THEN Res(cfg.initial, "initial", FALSE)
  ELSE FromStored(inline, FALSE)
ByEvaluation(inline) ==
  LET e == Evaluated(cfg.flag) IN
  IF e # "~" /\ ~Var(e).def THEN Res(e, "local", FALSE) ELSE Tail_(e, "local", inline, TRUE)

Resolve(inline) ==
  LET r == BySource(inline) IN
  IF IsLocal(cfg.flag) \/ (r.n = "~" /\ cfg.flag # "~") THEN ByEvaluation(inline) ELSE r

(* What listing all variants shows for the flag.                               *)
Listing ==
  IF IsLocal(cfg.flag) /\ Evaluated(cfg.flag) # "~" THEN Evaluated(cfg.flag)
  ELSE IF cfg.source = "localStorage" THEN (IF stored # "~" THEN stored ELSE cfg.initial)
  ELSE (IF cfg.initial # "~" THEN cfg.initial ELSE stored)

Show(n) == [key |-> Var(n).key, value |-> Var(n).value, ek |-> Var(n).ek, def |-> Var(n).def]
Falls(from) == from \in {"inline", "config", "secondary-initial", "none"}
(* The exposure: variant "~" means none is carried.                            *)
Exposure(r) ==
  LET v == Var(r.n) IN
  IF ~v.tr \/ (Falls(r.from) /\ ~r.hd) THEN <<>>
  ELSE <<[flag |-> "f", ek |-> v.ek, meta |-> v.meta,
          variant |-> IF Falls(r.from) \/ v.def THEN "~"
                      ELSE IF v.key \notin {"~", ""} THEN v.key ELSE IF v.value \notin {"~", ""} THEN v.value ELSE "~",
          type |-> IF v.ev # "~" THEN v.ev ELSE IF v.web THEN "$impression" ELSE "$exposure"]>>
(* The deprecated analytics provider: set + track, or unset; once until changed. *)
LegacyState(r) ==
  LET v == Var(r.n) IN
  IF ~v.tr \/ ~cfg.legacy THEN leg
  ELSE IF Falls(r.from) \/ v.value \in {"~", ""} THEN "unset" ELSE v.value
Legacy(r) ==
  LET v == Var(r.n) IN
  IF LegacyState(r) = leg THEN <<>>
  ELSE IF LegacyState(r) = "unset" THEN <<[call |-> "unset", value |-> v.value]>>
  ELSE <<[call |-> "set", value |-> v.value], [call |-> "track", value |-> v.value]>>

O(v, all, ex, lg) == [v |-> v, all |-> all, ex |-> ex, ep |-> ex, lg |-> lg]
NoObs == [v |-> Show("~"), all |-> Show("~"), ex |-> <<>>, ep |-> <<>>, lg |-> <<>>]

Init ==
  /\ cfg \in [source : Sources, initial : Initials, fallback : Fallbacks, flag : FlagKinds, auto : Autos, legacy : Legacies]
  /\ leg = "~"
  /\ stored \in Stored
  /\ act = [n |-> "init", cfg |-> cfg, stored |-> stored]
  /\ obs = NoObs

Variant(inline) ==
  LET r == Resolve(inline) IN
  /\ act' = [n |-> "variant", inline |-> inline]
  /\ UNCHANGED <<cfg, stored>>
  /\ leg' = (IF cfg.auto THEN LegacyState(r) ELSE leg)
  /\ obs' = O(Show(r.n), Show("~"), IF cfg.auto THEN Exposure(r) ELSE <<>>, IF cfg.auto THEN Legacy(r) ELSE <<>>)
Expose ==
  /\ act' = [n |-> "exposure"]
  /\ UNCHANGED <<cfg, stored>>
  /\ leg' = LegacyState(Resolve("~"))
  /\ obs' = O(Show("~"), Show("~"), Exposure(Resolve("~")), Legacy(Resolve("~")))
All ==
  /\ act' = [n |-> "all"]
  /\ UNCHANGED <<cfg, stored, leg>>
  /\ obs' = O(Show("~"), Show(Listing), <<>>, <<>>)
Fetch(n) ==
  /\ stored' = n
  /\ act' = [n |-> "fetched", stored |-> n]
  /\ UNCHANGED <<cfg, leg>>
  /\ obs' = NoObs

Next == \/ \E i \in Inlines : Variant(i)
        \/ Expose \/ All
        \/ \E n \in Fetched : Fetch(n)
Spec == Init /\ [][Next]_vars

(* ---- properties of the design -------------------------------------------------- *)
(* a local flag never answers from stored variants; a non-local one only when nothing else does *)
LocalNeverStored == \A i \in Inlines : IsLocal(cfg.flag) => Resolve(i).from # "storage"
StoredFirst == (cfg.source = "localStorage" /\ stored # "~" /\ ~Var(stored).def /\ ~IsLocal(cfg.flag))
                 => \A i \in Inlines : Resolve(i).n = stored
InitialFirst == (cfg.source = "initialVariants" /\ cfg.initial # "~" /\ ~IsLocal(cfg.flag))
                 => \A i \in Inlines : Resolve(i).n = cfg.initial
InlineBeatsDefault == \A i \in Inlines : (i # "~" /\ Resolve(i).from = "storage") => ~Var(stored).def
SomethingIfAnything == \A i \in Inlines :
   (i # "~" \/ cfg.initial # "~" \/ cfg.fallback \notin {"~", "fEmpty"}) => Resolve(i).n # "~"
FallbackCarriesNoVariant == \A i \in Inlines : LET r == Resolve(i) e == Exposure(r) IN
   (e # <<>> /\ (Falls(r.from) \/ Var(r.n).def)) => e[1].variant = "~"
=============================================================================
