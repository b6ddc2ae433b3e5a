----------------------------- MODULE AjBackend -----------------------------
(***************************************************************************)
(* The contract of a backend (see AjLists), one operation after the other. *)
(* A recorded operation is a record                                        *)
(*  [op, a, b, x, n, d1, d2, res, items, cnt, hits, la, lb, lv]            *)
(* Mode "model": all sequences of operations over a small menu are         *)
(* explored, the laws of the contract are checked and the sequences are    *)
(* printed.  Mode "trace": recorded sequences are validated.               *)
(***************************************************************************)
EXTENDS AjLists, Json, IOUtils

Mode == IOEnv.AJ_MODE
Data == ndJsonDeserialize(IOEnv.AJ_DATA)     \* the menu and the depth, or the recorded runs

VARIABLES S, t, l, hist
vars == <<S, t, l, hist>>

(*-------------------------------------------------------------------------*)
Items == {Data[1].menu[i].x : i \in 1 .. Len(Data[1].menu)}
(* the laws *)
Laws(T, o, r) ==
  /\ o.op = "move" => \A x \in Items : Total(T, x) = Total(r.S, x)        \* nothing lost or duplicated
  /\ o.op = "move" /\ o.a # o.b => Len(ListOf(r.S, o.a)) = Len(ListOf(T, o.a)) - Len(r.items)
  /\ o.op = "remove" => Count(ListOf(r.S, o.a), o.x) = 0
  /\ o.op = "push" => ListOf(r.S, o.a)[1] = o.x /\ Len(ListOf(r.S, o.a)) = Len(ListOf(T, o.a)) + 1
  /\ o.op \in {"get", "count", "read"} => r.S = T
  /\ o.op = "get" => Len(r.items) <= o.n
  /\ o.op \notin {"put"} => r.S.M = T.M
  /\ o.op = "put" => r.S.L = T.L
  /\ \A a \in DOMAIN T.L : a \notin {o.a, o.b} => ListOf(r.S, a) = T.L[a]

ModelInit == S = Empty /\ t = 0 /\ l = 0 /\ hist = << >>
ModelNext ==
  /\ l < Data[1].depth
  /\ \E i \in 1 .. Len(Data[1].menu) :
       LET o == Data[1].menu[i]
           r == Apply(S, o)
       IN /\ Assert(Laws(S, o, r), <<"law broken", S, o>>)
          /\ S' = r.S
          /\ hist' = Append(hist, i)
          /\ PrintT("HIST " \o ToJson(hist'))
  /\ l' = l + 1 /\ t' = t
(*-------------------------------------------------------------------------*)
TraceInit == S = Empty /\ t \in 1 .. Len(Data) /\ l = 0 /\ hist = << >>
TraceNext ==
  /\ l < Len(Data[t].steps)
  /\ LET o == Data[t].steps[l + 1]
         r == Apply(S, o)
         \* an operation that met failures of the server reports an error, and has been carried out up to some point
         parts == IF o.op = "move" THEN {Apply(S, [o EXCEPT !.n = k]).S : k \in 0 .. Min2(o.n, Len(ListOf(S, o.a)))} ELSE {S, r.S}
         seen(T) == /\ (o.op \notin {"put", "read"} => ListOf(T, o.a) = o.la)
                    /\ (o.op = "move" => ListOf(T, o.b) = o.lb)
                    /\ (o.op \in {"put", "read"} => Apply(T, [o EXCEPT !.op = "read"]).items = o.lv)
         now == {T \in parts : seen(T)}
     IN IF o.res = "ok" /\ o.items = r.items /\ o.cnt = r.cnt
        THEN S' = r.S /\ l' = l + 1
        ELSE IF o.res = "err" /\ o.hits > 0 /\ now # {}
        THEN S' = (CHOOSE T \in now : TRUE) /\ l' = l + 1
        ELSE /\ PrintT("VIOL " \o ToJson([t |-> t, l |-> l + 1, p |-> "C18", why |-> o.op \o " answers " \o o.res \o " "
                        \o ToString(o.items) \o " instead of " \o ToString(r.items), id |-> o.a]))
             /\ S' = S /\ l' = 1000000
  /\ t' = t /\ hist' = hist
(*-------------------------------------------------------------------------*)
Init == IF Mode = "model" THEN ModelInit ELSE TraceInit
Next == IF Mode = "model" THEN ModelNext ELSE TraceNext
Spec == Init /\ [][Next]_vars
View == IF Mode = "model" THEN <<S, 0, l, << >>>> ELSE <<Empty, t, l, << >>>>
=============================================================================
