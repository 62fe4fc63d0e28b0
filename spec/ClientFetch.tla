----------------------------- MODULE ClientFetch -----------------------------
(* Remote variants of an experiment client: fetch, partial fetch, failure,    *)
(* background retry with backoff, supersession, persistence, page loads.      *)
(* Time is in 1/128 ms so that every backoff delay is an integer.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS
  Users,          \* user names
  KeyChoices,     \* sequences of flag keys a fetch may name; AllKeys for no option
  Replies,        \* possible bodies of a successful response: [flag -> variant]
  Statuses,       \* failing HTTP statuses
  Flags, Slots,
  Configs,        \* [retry, throw, key, timeout]
  Steps,          \* extra time steps offered (units)
  Faults          \* BOOLEAN subset: may storage writes fail

U == 128
AllKeys == <<"*">>
RetryTimeout == 10000 * U
MinDelay == 500 * U
MaxDelay == 10000 * U
Attempts == 8
NoRetry == [on |-> FALSE, user |-> "~", keys |-> AllKeys, attempt |-> 0, left |-> 0, gen |-> 0]
None == [f \in Flags |-> "~"]
Free == [st |-> "free", user |-> "~", keys |-> AllKeys, kind |-> "~", gen |-> 0, left |-> 0, attempt |-> 0]

VARIABLES cfg, mem, disk, user, req, retry, gen, track, fault, act, obs
vars == <<cfg, mem, disk, user, req, retry, gen, track, fault, act, obs>>
(* generations are compared only for equality with the newest: store relative *)
view == <<cfg, mem, disk, user, [s \in Slots |-> [req[s] EXCEPT !.gen = IF @ = gen THEN 1 ELSE 0]],
          [retry EXCEPT !.gen = IF @ = gen THEN 1 ELSE 0], track, fault>>
Pick(S) == S

FreeSlots == {s \in Slots : req[s].st = "free"}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
NextSlot == Min(FreeSlots)
ToSet(s) == {s[i] : i \in 1..Len(s)}

(* what every action observes *)
O(m, d, sent, done) == [all |-> m, disk |-> d, sent |-> sent, done |-> done]

Init ==
  /\ cfg \in Configs
  /\ mem = None /\ disk = None /\ user = "~"
  /\ req = [s \in Slots |-> Free]
  /\ retry = NoRetry /\ gen = 0 /\ track = "~" /\ fault = FALSE
  /\ act = [n |-> "init", cfg |-> cfg]
  /\ obs = O(None, None, <<>>, <<>>)

Sent(s, u, k) == <<[slot |-> s, user |-> u, keys |-> k, track |-> track]>>

(* --- the caller fetches, naming user u ("~": reuse) and keys k ------------- *)
Fetch(u, k) ==
  LET eu == IF u = "~" THEN user ELSE u IN
  /\ user' = (IF eu = "~" THEN "none" ELSE eu)      \* no user: becomes the empty user
  /\ act' = [n |-> "fetch", user |-> u, keys |-> k]
  /\ UNCHANGED <<cfg, mem, disk, track, fault>>
  /\ IF ~cfg.key
       THEN /\ UNCHANGED <<req, retry, gen>>
            /\ obs' = O(mem, disk, <<>>, <<[slot |-> 0, ok |-> ~cfg.throw]>>)
       ELSE /\ FreeSlots # {}
            /\ retry' = (IF cfg.retry THEN NoRetry ELSE retry)
            /\ gen' = (IF cfg.retry THEN gen + 1 ELSE gen)
            /\ req' = [req EXCEPT ![NextSlot] =
                 [st |-> "out", user |-> (IF eu = "~" THEN "none" ELSE eu), keys |-> k, kind |-> "first",
                  gen |-> gen', left |-> cfg.timeout * U, attempt |-> 0]]
            /\ obs' = O(mem, disk, Sent(NextSlot, (IF eu = "~" THEN "none" ELSE eu), k), <<>>)

(* --- effect of a response on the stored variants ---------------------------- *)
Named(k) == IF k = AllKeys THEN {} ELSE ToSet(k)
Merge(m, k, body) ==
  IF Named(k) = {} THEN body
  ELSE [f \in Flags |-> IF body[f] # "~" THEN body[f] ELSE IF f \in Named(k) THEN "~" ELSE m[f]]

Success(s, body) ==
  LET r == req[s]
      live == r.kind = "first" \/ r.gen = gen
      m == IF live THEN Merge(mem, r.keys, body) ELSE mem
      d == IF live /\ ~fault THEN m ELSE disk IN
  /\ mem' = m /\ disk' = d
  /\ req' = [req EXCEPT ![s] = Free]
  /\ obs' = O(m, d, <<>>, IF r.kind = "first" THEN <<[slot |-> s, ok |-> TRUE]>> ELSE <<>>)
  /\ UNCHANGED retry

Delay[n \in 0..Attempts] == IF n = 0 THEN MinDelay ELSE
   LET d == (Delay[n-1] * 3) \div 2 IN IF d < MaxDelay THEN d ELSE MaxDelay

(* failure of an outstanding request; may schedule the next background retry  *)
NextRetry(r, retryable) ==
  IF r.kind = "first"
    THEN IF cfg.retry /\ retryable /\ r.gen = gen
           THEN [on |-> TRUE, user |-> r.user, keys |-> r.keys, attempt |-> 0, left |-> Delay[0], gen |-> gen]
           ELSE retry
    ELSE IF r.gen = gen /\ r.attempt + 1 < Attempts
           THEN [on |-> TRUE, user |-> r.user, keys |-> r.keys, attempt |-> r.attempt + 1, left |-> Delay[r.attempt + 1], gen |-> gen]
           ELSE retry
FailDone(s) == IF req[s].kind = "first" THEN <<[slot |-> s, ok |-> ~cfg.throw]>> ELSE <<>>

Failure(s, retryable) ==
  /\ retry' = NextRetry(req[s], retryable)
  /\ req' = [req EXCEPT ![s] = Free]
  /\ UNCHANGED <<mem, disk>>
  /\ obs' = O(mem, disk, <<>>, FailDone(s))

Fixed == UNCHANGED <<cfg, user, gen, track, fault>>
Respond(s, body) ==
  /\ req[s].st = "out" /\ Fixed
  /\ Success(s, body) /\ act' = [n |-> "ok", slot |-> s, body |-> body]
Reject(s, status) ==
  /\ req[s].st = "out" /\ Fixed
  /\ Failure(s, status < 400 \/ status >= 500 \/ status = 429)
  /\ act' = [n |-> "status", slot |-> s, status |-> status]
NetErr(s) ==
  /\ req[s].st = "out" /\ Fixed
  /\ Failure(s, TRUE) /\ act' = [n |-> "neterr", slot |-> s]

(* --- time ------------------------------------------------------------------- *)
Lefts == {req[s].left : s \in {x \in Slots : req[x].st = "out"}}
         \cup (IF retry.on THEN {retry.left} ELSE {})
Dec(d) == [s \in Slots |-> IF req[s].st = "out" THEN [req[s] EXCEPT !.left = @ - d] ELSE req[s]]

(* time passes and nothing happens *)
Wait(d) ==
  /\ d > 0 /\ \A x \in Lefts : d < x
  /\ Lefts # {}
  /\ req' = Dec(d)
  /\ retry' = (IF retry.on THEN [retry EXCEPT !.left = @ - d] ELSE retry)
  /\ UNCHANGED <<mem, disk>> /\ Fixed
  /\ act' = [n |-> "wait", units |-> d]
  /\ obs' = O(mem, disk, <<>>, <<>>)

(* time passes up to the next expiry; expiries at the same instant are not offered *)
Expire ==
  /\ Lefts # {}
  /\ LET d == Min(Lefts) IN
     /\ act' = [n |-> "wait", units |-> d]
     /\ Fixed
     /\ IF retry.on /\ retry.left = d
          THEN (* the retry timer fires: send *)
            /\ \A s \in Slots : req[s].st = "out" => req[s].left # d
            /\ FreeSlots # {}
            /\ req' = [Dec(d) EXCEPT ![NextSlot] =
                 [st |-> "out", user |-> retry.user, keys |-> retry.keys, kind |-> "retry",
                  gen |-> retry.gen, left |-> RetryTimeout, attempt |-> retry.attempt]]
            /\ retry' = NoRetry
            /\ UNCHANGED <<mem, disk>>
            /\ obs' = O(mem, disk, Sent(NextSlot, retry.user, retry.keys), <<>>)
          ELSE (* a request times out *)
            /\ Cardinality({s \in Slots : req[s].st = "out" /\ req[s].left = d}) = 1
            /\ LET s == CHOOSE x \in Slots : req[x].st = "out" /\ req[x].left = d
                   nr == NextRetry(req[s], TRUE) IN
               /\ req' = [Dec(d) EXCEPT ![s] = Free]
               /\ retry' = (IF nr = retry /\ retry.on THEN [retry EXCEPT !.left = @ - d] ELSE nr)
               /\ UNCHANGED <<mem, disk>>
               /\ obs' = O(mem, disk, <<>>, FailDone(s))

(* --- the rest ---------------------------------------------------------------- *)
Clear ==
  /\ mem' = None /\ disk' = (IF fault THEN disk ELSE None)
  /\ act' = [n |-> "clear"] /\ UNCHANGED <<cfg, user, req, retry, gen, track, fault>>
  /\ ~fault    \* a failing store makes clear() throw nothing observable; not offered
  /\ obs' = O(None, disk', <<>>, <<>>)
SetTrack(t) ==
  /\ ~fault
  /\ track' = t /\ act' = [n |-> "track", t |-> t]
  /\ UNCHANGED <<cfg, mem, disk, user, req, retry, gen, fault>>
  /\ obs' = O(mem, disk, <<>>, <<>>)
(* another user from now on; what is under way keeps its own *)
SetUser(u) ==
  /\ u # user /\ user' = u /\ act' = [n |-> "user", user |-> u]
  /\ UNCHANGED <<cfg, mem, disk, req, retry, gen, track, fault>>
  /\ obs' = O(mem, disk, <<>>, <<>>)
SetFault(b) ==
  /\ fault # b /\ fault' = b /\ act' = [n |-> "fault", on |-> b]
  /\ UNCHANGED <<cfg, mem, disk, user, req, retry, gen, track>>
  /\ obs' = O(mem, disk, <<>>, <<>>)
Reload ==
  /\ mem' = disk /\ user' = "~" /\ req' = [s \in Slots |-> Free] /\ retry' = NoRetry /\ gen' = 0
  /\ act' = [n |-> "reload"] /\ UNCHANGED <<cfg, disk, track, fault>>
  /\ obs' = O(disk, disk, <<>>, <<>>)

Next ==
  \/ \E u \in Pick(Users \cup {"~"}), k \in Pick(KeyChoices) : Fetch(u, k)
  \/ \E s \in Slots, b \in Pick(Replies) : Respond(s, b)
  \/ \E s \in Slots, x \in Pick(Statuses) : Reject(s, x)
  \/ \E s \in Slots : NetErr(s)
  \/ \E d \in Pick(Steps) : Wait(d)
  \/ Expire
  \/ \E z \in Pick(1..6) : z = 1 /\ Clear       \* Pick makes these rare in random runs
  \/ \E z \in Pick(1..8) : z = 1 /\ Reload
  \/ \E t \in Pick({"track", "no-track"}), z \in Pick(1..6) : z = 1 /\ SetTrack(t)
  \/ \E u \in Pick(Users \cup {"~"}), z \in Pick(1..3) : z = 1 /\ SetUser(u)
  \/ \E b \in Faults, z \in Pick(1..6) : z = 1 /\ SetFault(b)
Spec == Init /\ [][Next]_vars

(* --- properties of the design ------------------------------------------------- *)
FailureKeepsVariants == [][ act'.n \in {"status", "neterr", "wait", "fetch"} => (mem' = mem /\ disk' = disk) ]_vars
DiskFollowsMemory == (\A b \in Faults : FALSE) => mem = disk
AtMostOneRetryChain ==
  Cardinality({s \in Slots : req[s].st = "out" /\ req[s].kind = "retry" /\ req[s].gen = gen}) + (IF retry.on THEN 1 ELSE 0) <= 1
RetryIsNewest == retry.on => retry.gen = gen
Bounded == \A s \in Slots : req[s].attempt < Attempts
SupersededRetryChangesNothing == [][ \A s \in Slots :
   (req[s].st = "out" /\ req[s].kind = "retry" /\ req[s].gen # gen /\ req'[s] = Free /\ act'.n # "reload") => mem' = mem ]_vars
LevelBound(n) == TLCGet("level") <= n
=============================================================================
