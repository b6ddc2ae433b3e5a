------------------------------ MODULE AjLists ------------------------------
(***************************************************************************)
(* The meaning of the operations of a backend: ordered lists and maps.     *)
(*  L  name -> sequence, front first       M  <<map, key>> -> value        *)
(* An operation is a record [op, a, b, x, n, d1, d2, ...]; Apply yields    *)
(* the next state and the result the operation has to have.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

ListOf(S, a) == IF a \in DOMAIN S.L THEN S.L[a] ELSE << >>
PutL(S, a, v) == [S EXCEPT !.L = [x \in DOMAIN @ \cup {a} |-> IF x = a THEN v ELSE @[x]]]
Min2(a, b) == IF a < b THEN a ELSE b

(* the first n items from end d, in the order in which they are met *)
Ends(s, n, d) ==
  LET k == Min2(n, Len(s))
  IN IF d = "F" THEN SubSeq(s, 1, k) ELSE [i \in 1 .. k |-> s[Len(s) + 1 - i]]
Rest(s, n, d) ==
  LET k == Min2(n, Len(s))
  IN IF d = "F" THEN SubSeq(s, k + 1, Len(s)) ELSE SubSeq(s, 1, Len(s) - k)
(* each added to end d, one after the other *)
AddAll(s, items, d) == IF d = "F" THEN Reverse(items) \o s ELSE s \o items

Done(S) == [S |-> S, items |-> << >>, cnt |-> -1]
Apply(S, o) ==
  CASE o.op = "push"   -> Done(PutL(S, o.a, <<o.x>> \o ListOf(S, o.a)))
    [] o.op = "remove" -> Done(PutL(S, o.a, SelectSeq(ListOf(S, o.a), LAMBDA y : y # o.x)))
    [] o.op = "move"   -> LET it == Ends(ListOf(S, o.a), o.n, o.d1)
                              S1 == PutL(S, o.a, Rest(ListOf(S, o.a), o.n, o.d1))
                              S2 == PutL(S1, o.b, AddAll(ListOf(S1, o.b), it, o.d2))
                          IN [S |-> S2, items |-> it, cnt |-> -1]
    [] o.op = "get"    -> [S |-> S, items |-> Ends(ListOf(S, o.a), o.n, o.d1), cnt |-> -1]
    [] o.op = "count"  -> [S |-> S, items |-> << >>, cnt |-> Len(ListOf(S, o.a))]
    [] o.op = "put"    -> Done([S EXCEPT !.M = [k \in DOMAIN @ \cup {<<o.a, o.b>>} |->
                                                  IF k = <<o.a, o.b>> THEN o.x ELSE @[k]]])
    [] OTHER           -> [S |-> S, items |-> IF <<o.a, o.b>> \in DOMAIN S.M THEN <<S.M[<<o.a, o.b>>]>> ELSE << >>,
                           cnt |-> -1]
Empty == [L |-> [x \in {} |-> << >>], M |-> [x \in {} |-> ""]]


Count(s, x) == Cardinality({i \in 1 .. Len(s) : s[i] = x})
RECURSIVE Sum(_, _)
Sum(f, D) == IF D = {} THEN 0 ELSE LET d == CHOOSE d \in D : TRUE IN f[d] + Sum(f, D \ {d})
Total(T, x) == Sum([a \in DOMAIN T.L |-> Count(T.L[a], x)], DOMAIN T.L)
=============================================================================
