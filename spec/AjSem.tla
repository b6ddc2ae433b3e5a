------------------------------- MODULE AjSem -------------------------------
(***************************************************************************)
(* The meaning of one aj job: what a request, the start of an execution    *)
(* and the end of an execution do to a job record.  Everything here is a   *)
(* pure function; it is the single source of truth that the design model   *)
(* (Aj), the property kernel (AjStep) and the trace validators use.        *)
(*                                                                         *)
(* Times are milliseconds relative to an epoch that is a whole day, so     *)
(* that cron expressions with a period dividing a day match exactly at the *)
(* multiples of their period.  Values beyond CLIP are clipped to it.       *)
(*                                                                         *)
(* A job record has the fields                                             *)
(*   q    queue (job type)                st   status                      *)
(*   kind "normal" | "sched" | "cron"     at   due time (sched, cron)      *)
(*   per  period of the expression        once only instant it matches, -1 *)
(*   sl   instants a general expression matches, in order (<< >>: by per)  *)
(*   rep  number of the coming occurrence (cron, from 1)                   *)
(*   mr   maximal occurrences, -1 none    ea   end time, -1 none           *)
(*   rmax maximal retries: -2 no policy, -1 unlimited                      *)
(*   rst  "int" | "exp" | "none"          rb   interval / initial backoff  *)
(*   ret0 retries counted before the first run (in a request)              *)
(*   rh   1: half a millisecond is added to rb                             *)
(*   ret  retries so far                  rc   run count                   *)
(*   v,d  data (a number, and a digest of all of it), mu its mutable part  *)
(*   cr,eq,ru,co,ca  creation, queueing, start, completion, cancel times   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CLIP == 2000000000
ANY  == -999999999      \* "whatever the implementation records here"
NoSlot == -1

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
AddClip(a, b) == IF b >= CLIP - a THEN CLIP ELSE a + b

(***************************************************************************)
(* Job types differ in what their code does: type 5 is a function (its     *)
(* outcome never counts as failed, and it cannot change its data); type 6  *)
(* turns the outcome around after the execution, changes its data before,  *)
(* in and after it, and retries LATER after the time of its policy.        *)
(***************************************************************************)
LATER == 70
Judged(q, out) == CASE q = 5 -> "ok"
                    [] q = 6 -> IF out = "ok" THEN "err" ELSE "ok"
                    [] OTHER -> out
MuBefore(q) == IF q = 6 THEN 1 ELSE 0
MuAll(q) == CASE q = 5 -> 0 [] q = 6 -> 3 [] OTHER -> 1
RetryPlus(q) == IF q = 6 THEN LATER ELSE 0

DoneStatuses == {"Finished", "Failed", "Canceled"}
IsDone(j) == j.st \in DoneStatuses

(* first instant strictly after now that matches the cron expression *)
NextSlot(j, now) ==
  IF j.sl # << >>
  THEN LET s == {i \in 1 .. Len(j.sl) : j.sl[i] > now}
       IN IF s = {} THEN NoSlot ELSE j.sl[CHOOSE i \in s : \A k \in s : i <= k]
  ELSE IF j.once >= 0 THEN (IF j.once > now THEN j.once ELSE NoSlot)
  ELSE ((now \div j.per) + 1) * j.per

RECURSIVE Doubled(_, _)
Doubled(b, n) ==
  IF n <= 0 THEN b
  ELSE LET d == Doubled(b, n - 1) IN IF d >= CLIP \div 2 THEN CLIP ELSE 2 * d

(* delay of the n-th retry, n counted from 1 *)
RetryDelay(j, n) ==
  IF j.rst = "exp" THEN (IF j.rh = 1 THEN Doubled(2 * j.rb + 1, n - 1) ELSE Doubled(j.rb, n))
  ELSE j.rb + j.rh     \* time is in whole milliseconds, a due time is rounded up
RetriesLeft(j) == j.rmax = -1 \/ (j.rmax >= 0 /\ j.ret < j.rmax)

(* due, and allowed by the limits of the recurrence *)
SlotAllowed(j) == /\ (j.mr = -1 \/ j.rep <= j.mr)
                  /\ (j.ea = -1 \/ j.at <= j.ea)
IsDue(j, now) ==
  CASE j.kind = "normal" -> TRUE
    [] j.kind = "sched"  -> j.at <= now
    [] OTHER             -> j.at <= now /\ SlotAllowed(j)
DueTime(j) == IF j.kind = "normal" THEN 0 ELSE j.at

(***************************************************************************)
(* Requests.  p is a normalised request: the fields of a record above as   *)
(* far as they are given, delay (-1: none), re, ov, ctx, rc0.              *)
(***************************************************************************)
(* a job object exists before it is queued: t0 is when it was made (-1: now) *)
Made(p, now) == IF p.t0 >= 0 THEN p.t0 ELSE now
NewRec(p, now) ==
  [ q |-> p.q, st |-> "Queued", kind |-> p.kind,
    at |-> CASE p.kind = "normal" -> 0
             [] p.kind = "sched"  -> IF p.delay >= 0 THEN AddClip(Made(p, now), p.delay) ELSE p.at
             [] OTHER -> LET s == NextSlot(p, Made(p, now))
                         IN IF s = NoSlot THEN Made(p, now) ELSE s,
    per |-> IF p.kind = "cron" /\ p.once < 0 /\ p.sl = << >> THEN p.per ELSE 0,
    sl |-> IF p.kind = "cron" THEN p.sl ELSE << >>,
    once |-> IF p.kind = "cron" THEN p.once ELSE -1,
    rep |-> IF p.kind = "cron" THEN 1 ELSE 0,
    mr |-> IF p.kind = "cron" THEN p.mr ELSE -1,
    ea |-> IF p.kind = "cron" THEN p.ea ELSE -1,
    rmax |-> p.rmax,
    rst |-> IF p.rmax = -2 THEN "none" ELSE p.rst,
    rb |-> IF p.rmax = -2 THEN 0 ELSE p.rb,
    rh |-> IF p.rmax = -2 THEN 0 ELSE p.rh,
    ret |-> IF p.rmax = -2 THEN 0 ELSE p.ret0, rc |-> p.rc0, v |-> p.v, mu |-> 0, d |-> p.d,
    cr |-> Made(p, now), eq |-> now, ru |-> -1, co |-> -1, ca |-> -1 ]

(* back into the queue, as it is *)
Requeue(j, now) == [j EXCEPT !.st = "Queued", !.eq = now]

(* submission of a job under an id that already exists *)
Resubmit(j, p, now) ==
  IF j.st = "Running" THEN j
  ELSE IF ~p.ov THEN (IF p.re /\ IsDone(j) THEN Requeue(j, now) ELSE j)
  ELSE LET n == [NewRec(p, now) EXCEPT !.st = j.st, !.eq = ANY, !.ru = ANY, !.co = ANY, !.ca = ANY]
       IN IF p.re /\ IsDone(j) THEN Requeue(n, now) ELSE n

(* update: the data and, if given, the settings; a completed job runs again *)
Updated(j, p, now) ==
  IF j.st = "Running" THEN j
  ELSE LET n == IF p.ctx
                THEN [NewRec(p, now) EXCEPT !.q = j.q, !.st = j.st, !.rc = 0,
                                            !.eq = ANY, !.ru = ANY, !.co = ANY, !.ca = ANY]
                ELSE [j EXCEPT !.v = p.v, !.d = p.d, !.mu = 0]
       IN IF IsDone(j) THEN Requeue(n, now) ELSE n

Canceled(j, now) == IF j.st = "Queued" THEN [j EXCEPT !.st = "Canceled", !.ca = now] ELSE j
Retried(j, now)  == IF IsDone(j) THEN Requeue(j, now) ELSE j

(***************************************************************************)
(* Executions.                                                             *)
(***************************************************************************)
Claimed(j, now) == [j EXCEPT !.st = "Running", !.ru = now]

NextOccurrence(j, now) ==
  IF j.kind # "cron" THEN NoSlot
  ELSE LET s == NextSlot(j, now)
       IN IF s = NoSlot \/ (j.mr # -1 /\ j.rep >= j.mr) \/ (j.ea # -1 /\ s > j.ea)
          THEN NoSlot ELSE s

(* the execution ended with outcome out: "ok", "err", or a panic of the body, of the hook *)
(* before or after it, or of the judgement of the outcome                                *)
Panics == {"panic", "panicpre", "panicpost", "panicjudge"}
Completed(j0, out0, now) ==
  IF out0 \in Panics
  THEN [j0 EXCEPT !.st = "Failed", !.co = now, !.rc = ANY, !.mu = ANY]
  ELSE
  LET out == Judged(j0.q, out0)
      j  == [j0 EXCEPT !.rc = @ + 1, !.mu = @ + MuAll(j0.q)]
      t  == AddClip(now + RetryPlus(j.q), RetryDelay(j, j.ret + 1))
      wantRetry == out = "err" /\ j.rmax # -2 /\ RetriesLeft(j)
      \* no retry of a cron job later than its end time
      tooLate == j.kind = "cron" /\ j.ea # -1 /\ t > j.ea
      k  == IF wantRetry /\ tooLate THEN [j EXCEPT !.ret = ANY] ELSE j
      s  == NextOccurrence(k, now)
  IN IF wantRetry /\ ~tooLate
     THEN IF j.kind = "cron"
          THEN [j EXCEPT !.st = "Queued", !.at = t, !.ret = @ + 1, !.eq = now]
          ELSE [j EXCEPT !.st = "Queued", !.kind = "sched", !.at = t, !.ret = @ + 1, !.eq = now]
     ELSE IF s # NoSlot
     THEN [k EXCEPT !.st = "Queued", !.at = s, !.rep = @ + 1, !.eq = now]
     ELSE [k EXCEPT !.st = IF out = "ok" THEN "Finished" ELSE "Failed", !.co = now]

(***************************************************************************)
(* The effect of a whole request on the jobs (a function from ids).        *)
(***************************************************************************)
Put(E, id, r) == [x \in DOMAIN E \cup {id} |-> IF x = id THEN r ELSE E[x]]
Effect(E, p, now) ==
  LET has == p.id \in DOMAIN E IN
  CASE p.rop = "submit" ->
         IF has THEN Put(E, p.id, Resubmit(E[p.id], p, now)) ELSE Put(E, p.id, NewRec(p, now))
    [] p.rop = "update" -> IF has THEN Put(E, p.id, Updated(E[p.id], p, now)) ELSE E
    [] p.rop = "cancel" -> IF has THEN Put(E, p.id, Canceled(E[p.id], now)) ELSE E
    [] p.rop = "retry"  -> IF has THEN Put(E, p.id, Retried(E[p.id], now)) ELSE E
    [] OTHER -> E

(* the answer the caller has to get *)
Answer(E, p, registered) ==
  CASE p.rop = "submit" -> "ok"
    [] p.rop = "update" -> "ok"
    [] p.rop = "cap"    -> IF registered THEN "ok" ELSE "err"
    [] p.rop = "cancel" -> IF registered THEN "ok" ELSE "err"
    [] p.rop = "retry"  -> IF ~registered THEN "err"
                           ELSE IF p.id \in DOMAIN E /\ IsDone(E[p.id]) THEN "true" ELSE "false"
    [] OTHER -> "ok"
=============================================================================
