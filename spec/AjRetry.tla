------------------------------ MODULE AjRetry ------------------------------
(***************************************************************************)
(* The retry policy for any number of retries.  The delay of the n-th      *)
(* retry is the interval, or the initial backoff times 2^n; a delay that   *)
(* reaches beyond the last instant that can be represented means "not      *)
(* within any time that can be represented", never less.                   *)
(* Numbers are triples of digits of base 10^9, most significant first.     *)
(* The same holds for jobs that leave to the policy when they are retried. *)
(* The validator compares recorded answers with the policy.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

B == 1000000000
Runs == ndJsonDeserialize(IOEnv.AJ_RUNS)

Less(x, y) == \/ x[1] < y[1]
              \/ x[1] = y[1] /\ x[2] < y[2]
              \/ x[1] = y[1] /\ x[2] = y[2] /\ x[3] < y[3]
Leq(x, y) == ~Less(y, x)
Double(x) ==
  LET c == 2 * x[3]
      b == 2 * x[2] + c \div B
      a == 2 * x[1] + b \div B
  IN <<a, b % B, c % B>>
(* doubled n times, or as soon as it is beyond lim, something beyond lim *)
RECURSIVE Times2(_, _, _)
Times2(x, n, lim) == IF n = 0 \/ ~Leq(x, lim) \/ x = <<0, 0, 0>> THEN x ELSE Times2(Double(x), n - 1, lim)

Delay(r, n) == IF r.rst = "exp" THEN Times2(r.base, n, r.room) ELSE r.base

StepOk(r, s) ==
  LET d == Delay(r, s.n + 1)      \* asked after s.n retries: the next one
  IN /\ s.res = "ok"
     /\ ~s.neg
     /\ s.should = (r.max < 0 \/ s.n < r.max)
     /\ s.asked => IF Less(d, r.room) THEN s.d = d ELSE s.far   \* a job that is not retried has no delay

VARIABLES t, l
Init == t \in 1 .. Len(Runs) /\ l = 0
Next == /\ l < Len(Runs[t].steps)
        /\ LET s == Runs[t].steps[l + 1]
           IN IF StepOk(Runs[t], s) THEN TRUE
              ELSE PrintT("VIOL " \o ToJson([t |-> t, l |-> l + 1, p |-> "C06", why |-> "wrong retry delay after "
                          \o ToString(s.n) \o " retries", id |-> Runs[t].rst]))
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_<<t, l>>
=============================================================================
