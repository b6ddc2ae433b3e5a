------------------------------- MODULE AjConc -------------------------------
(***************************************************************************)
(* Concurrent operations on a backend.  Several threads work on one        *)
(* backend; every operation takes effect at one moment between its         *)
(* invocation and its return (a move of several items item by item).       *)
(*                                                                         *)
(* Mode "model": all programs of the given size are run in all ways; no    *)
(* item is ever lost or duplicated; the programs are printed.              *)
(* Mode "trace": for every recorded history - operations with results and  *)
(* the moments of invocation and return - TLC searches for an order in     *)
(* which sequential operations give the same results.  Histories for which *)
(* there is one are printed.                                               *)
(***************************************************************************)
EXTENDS AjLists, Json, IOUtils

Mode == IOEnv.AJ_MODE
Data == ndJsonDeserialize(IOEnv.AJ_DATA)

(*  S    the backend
    t    the history (or 0)
    pos  per thread: operations that have taken effect
    mic  per thread: steps of the operation in progress
    got  per thread: items moved by it
    prog per thread: the operations chosen (model)
    cnt  pushes and removals so far (model)                                *)
VARIABLES S, t, pos, mic, got, prog, cnt
vars == <<S, t, pos, mic, got, prog, cnt>>

(* an operation that moves several items is seen item by item *)
Micro(o) == IF o.op = "move" THEN o.n ELSE 1
One(o) == IF o.op = "move" THEN [o EXCEPT !.n = 1] ELSE o

(*-------------------------------------------------------------------------*)
Threads == 1 .. Data[1].threads
RECURSIVE Run(_, _)
Run(T, ops) == IF ops = << >> THEN T ELSE Run(Apply(T, Head(ops)).S, Tail(ops))
Pushed(ops, x) == Cardinality({i \in 1 .. Len(ops) : ops[i].op = "push" /\ ops[i].x = x})
Things == {Data[1].menu[i].x : i \in 1 .. Len(Data[1].menu)} \ {"-"}

ModelInit ==
  /\ S = Run(Empty, Data[1].init) /\ t = 0
  /\ pos = [th \in Threads |-> 0] /\ mic = [th \in Threads |-> 0] /\ got = [th \in Threads |-> << >>]
  /\ prog = [th \in Threads |-> << >>]
  /\ cnt = [x \in Things |-> [p |-> Pushed(Data[1].init, x), r |-> FALSE]]
Choose(th) ==
  /\ Len(prog[th]) = pos[th] /\ Len(prog[th]) < Data[1].ops
  /\ \E i \in 1 .. Len(Data[1].menu) :
       /\ prog' = [prog EXCEPT ![th] = Append(@, i)]
       /\ (\A u \in Threads : Len(prog'[u]) = Data[1].ops) => PrintT("HIST " \o ToJson(prog'))
  /\ UNCHANGED <<S, t, pos, mic, got, cnt>>
Effect(th) ==
  /\ Len(prog[th]) > pos[th]
  /\ LET o == Data[1].menu[prog[th][pos[th] + 1]]
         last == mic[th] + 1 >= Micro(o)
     IN /\ S' = IF Micro(o) = 0 THEN S ELSE Apply(S, One(o)).S
        /\ mic' = [mic EXCEPT ![th] = IF last THEN 0 ELSE @ + 1]
        /\ pos' = [pos EXCEPT ![th] = IF last THEN @ + 1 ELSE @]
        /\ cnt' = IF o.op = "push" THEN [cnt EXCEPT ![o.x].p = @ + 1]
                  ELSE IF o.op = "remove" THEN [cnt EXCEPT ![o.x].r = TRUE] ELSE cnt
  /\ UNCHANGED <<t, got, prog>>
ModelNext == \E th \in Threads : Choose(th) \/ Effect(th)
Conserved == Mode = "model" =>
  \A x \in Things : LET n == Total(S, x) IN n <= cnt[x].p /\ (~cnt[x].r => n = cnt[x].p)

(*-------------------------------------------------------------------------*)
Th == Data[t].th
TraceInit ==
  /\ t \in 1 .. Len(Data) /\ S = Empty
  /\ pos = [th \in 1 .. Len(Data[t].th) |-> 0]
  /\ mic = [th \in 1 .. Len(Data[t].th) |-> 0]
  /\ got = [th \in 1 .. Len(Data[t].th) |-> << >>]
  /\ prog = << >> /\ cnt = << >>
Ended(p) == \A th \in 1 .. Len(Th) : p[th] = Len(Th[th])
(* no operation that returned before this one was invoked is still to come *)
MayBeNext(th) ==
  LET o == Th[th][pos[th] + 1]
  IN \A u \in 1 .. Len(Th) : u # th /\ pos[u] < Len(Th[u]) => ~(Th[u][pos[u] + 1].ret < o.inv)
TraceStep(th) ==
  /\ pos[th] < Len(Th[th])
  /\ mic[th] > 0 \/ MayBeNext(th)
  /\ LET o == Th[th][pos[th] + 1]
         r == Apply(S, One(o))
         g == IF o.op = "move" THEN got[th] \o r.items ELSE r.items
         idle == Micro(o) = 0
         last == mic[th] + 1 >= Micro(o)
         items == IF idle THEN << >> ELSE g
     IN /\ o.res = "ok"
        /\ IF last THEN o.items = items /\ (o.op = "count" => o.cnt = r.cnt) ELSE IsPrefix(g, o.items)
        /\ S' = IF idle THEN S ELSE r.S
        /\ mic' = [mic EXCEPT ![th] = IF last THEN 0 ELSE @ + 1]
        /\ got' = [got EXCEPT ![th] = IF last THEN << >> ELSE g]
        /\ pos' = [pos EXCEPT ![th] = IF last THEN @ + 1 ELSE @]
        /\ Ended(pos') => PrintT("HIST " \o ToString(t))
  /\ UNCHANGED <<t, prog, cnt>>
TraceNext == \E th \in 1 .. Len(Th) : TraceStep(th)
(*-------------------------------------------------------------------------*)
Init == IF Mode = "model" THEN ModelInit ELSE TraceInit
Next == IF Mode = "model" THEN ModelNext ELSE TraceNext
Spec == Init /\ [][Next]_vars
=============================================================================
