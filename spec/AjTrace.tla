------------------------------ MODULE AjTrace ------------------------------
(***************************************************************************)
(* Validates traces recorded from the real implementation against the      *)
(* specification: every recorded step has to be a step that AjStep allows. *)
(* Each trace is one behaviour; the verdicts for the properties in Props   *)
(* are printed and the trace is given up at the first one.  ign: what the  *)
(* trace without the disturbance under test shows as well.                 *)
(***************************************************************************)
EXTENDS AjStep, Json, IOUtils

Props  == LET s == IOEnv.AJ_PROPS IN {x \in {"C01","C02","C03","C04","C05","C06","C07","C08","C09","C10",
             "C11","C12","C13","C14","C15","C16","C17","C18","C19","C20","C21","C22"} :
             \E i \in 1 .. Len(s) - 2 : SubSeq(s, i, i + 2) = x}
Traces == ndJsonDeserialize(IOEnv.AJ_TRACES)

VARIABLES t, l, g, bad
vars == <<t, l, g, bad>>

Init == /\ t \in 1 .. Len(Traces)
        /\ l = 1
        /\ g = InitG(Traces[t].np, Traces[t].own)
        /\ bad = {}

StepTrace ==
  /\ bad = {}
  /\ l < Len(Traces[t].steps)
  /\ LET r == Next1(g, Traces[t].steps[l], Traces[t].steps[l + 1])
         b == {x \in r.v : x[1] \in Props /\ \A i \in 1 .. Len(Traces[t].ign) : Traces[t].ign[i] # x[2]}
     IN /\ g' = r.g
        /\ bad' = b
        /\ IF b = {} THEN TRUE
           ELSE \A x \in r.v : PrintT("VIOL " \o ToJson([t |-> t, l |-> l, p |-> x[1], why |-> x[2], id |-> x[3]]))
  /\ l' = l + 1
  /\ t' = t

Spec == Init /\ [][StepTrace]_vars
=============================================================================
