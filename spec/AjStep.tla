------------------------------- MODULE AjStep -------------------------------
(***************************************************************************)
(* The property kernel.  An observation is what one can see of the engine  *)
(* at rest: the time, every job record, the status lists of the backend,   *)
(* the executions in progress, and what happened since the previous        *)
(* observation (a label and the sequence of events).  Step takes the model *)
(* state g and two successive observations and yields the next model state *)
(* and the set of properties the step breaks.                              *)
(*                                                                         *)
(* The model follows AjSem; the only things it takes from the observation  *)
(* are the choices the system is free to make: at which poll a due job is  *)
(* started, in which step a pending (split) call takes effect, and - when  *)
(* backend operations failed or the process crashed in the step - how far  *)
(* an interrupted operation got.                                           *)
(*                                                                         *)
(* The same operator judges the steps of the design model (Aj, all         *)
(* reachable steps, by TLC) and the steps recorded from the real           *)
(* implementation (AjTrace).                                               *)
(***************************************************************************)
EXTENDS AjSem, SequencesExt

DefaultCap  == 20
DefaultTick == 100
Queues == {0, 1, 2, 3, 5, 6}     \* job types; 4 has data that cannot be stored, 7 has the name of 0
QName == <<"J0", "j0", "OrderConfirmationEmailForCustomer", "OrderConfirmationEmailForCustomers", "JU", "JobAttrfull", "JH", "J0!">>
Refused == {4, 7}
Poison == {900000001, 900000002, 900000003}   \* data that cannot be stored or not be read back
Listed == {"Queued", "Running", "Finished", "Failed"}
ReqOps == {"submit", "cancel", "retry", "update", "cap"}

(***************************************************************************)
(* Model state                                                             *)
(*  E   jobs                       X   executions in progress              *)
(*  S   since when a job could have been started                           *)
(*  R   when an immediate job entered the queue (-1: no claim on order)    *)
(*  cfg per queue: limit n, interval tick; oldn and win: until win the     *)
(*      previous limit may still apply; eff: until then the interval too   *)
(*  P   pending calls              reg queues in use                       *)
(*  L   recorded as running by an interrupted poll, not executing          *)
(*  D   in progress when the process crashed: nothing is promised          *)
(*  A   arguments of attribute jobs not yet executed                       *)
(*  k   number of steps            np  number of plugins                   *)
(*  own property that owns the trace ("" if none)                          *)
(*  M   retried by hand, not yet started                                   *)
(*  U   resubmitted or updated, not yet started                            *)
(*  K   waiting while another job was canceled, not yet started            *)
(*  lc  per queue: no earlier than the last poll that started something    *)
(*  dist  operations have failed or the process has crashed                *)
(***************************************************************************)
EmptyF == [x \in {} |-> 0]
InitG(np, own) ==
  [ E |-> EmptyF, X |-> EmptyF, S |-> EmptyF, R |-> EmptyF,
    cfg |-> [q \in 0 .. 7 |-> [n |-> DefaultCap, tick |-> DefaultTick,
                               oldn |-> DefaultCap, win |-> -1, eff |-> -1]],
    P |-> EmptyF, reg |-> {}, L |-> {}, D |-> {}, A |-> {}, M |-> {}, U |-> {}, K |-> {}, k |-> 0,
    lc |-> [q \in 0 .. 7 |-> -CLIP],
    np |-> np, own |-> own, dist |-> FALSE ]

Drop(f, id) == [x \in DOMAIN f \ {id} |-> f[x]]

(***************************************************************************)
(* Event fold.  a: [E, X, R, v (violations), exp (status changes in order),*)
(*                  cl (ids started), co (ids completed)]                  *)
(***************************************************************************)
RECURSIVE HookToks(_, _, _, _)
HookToks(e1, e2, i, n) ==
  IF i = n THEN << >> ELSE << <<e1, i>>, <<e2, i>> >> \o HookToks(e1, e2, i + 1, n)
FullToks(nb, na) ==      \* plugins before the body and after it
  HookToks("bf", "bfx", 0, nb)
  \o << <<"pre", -1>>, <<"start", -1>>, <<"end", -1>>, <<"post", -1>> >>
  \o HookToks("af", "afx", 0, na)
PanicToks(out, nb, na) ==
  LET b == HookToks("bf", "bfx", 0, nb) \o << <<"pre", -1>> >>
      c == b \o << <<"start", -1>>, <<"end", -1>> >>
      d == Append(c, <<"post", -1>>)
  IN CASE out = "panicpre" -> {b} [] out = "panic" -> {c} [] out = "panicpost" -> {d}
       [] OTHER -> {d, FullToks(nb, na)}

V(a, p, why, id) == [a EXCEPT !.v = @ \cup {<<p, why, id>>}]
VIf(a, c, p, why, id) == IF c THEN V(a, p, why, id) ELSE a

Complete(a, id, now) ==
  LET j == a.E[id]
      x == a.X[id]
      n == Completed(j, x.out, now)
      full == IF x.out \in Panics THEN PanicToks(x.out, x.nb, x.na) ELSE {FullToks(x.nb, x.na)}
      b == VIf(a, x.toks \notin full, "C13", "hooks do not bracket the execution", id)
  IN [b EXCEPT !.E = Put(@, id, n), !.X = Drop(@, id),
               !.R = Put(@, id, IF n.st = "Queued" /\ n.kind = "normal" THEN a.k ELSE -1),
               !.exp = Append(@, <<id, n.st>>), !.co = @ \cup {id}]

Claim(a0, id, q, now) ==
  LET a == IF id \in DOMAIN a0.X /\ a0.X[id].ph = "ended" THEN Complete(a0, id, now) ELSE a0
  IN
  IF id \notin DOMAIN a.E
  THEN V(V(a, "C03", "execution of a job that does not exist", id), "C21", "executed under a wrong id", id)
  ELSE IF id \in DOMAIN a.X
  THEN V(a, "C03", "second execution while one is in progress", id)
  ELSE IF id \in a.D
  THEN [a EXCEPT !.E = Put(@, id, Claimed(a.E[id], now)),
                 !.X = Put(@, id, [ph |-> "bf", out |-> "", toks |-> << >>, nb |-> a.np, na |-> a.np, free |-> TRUE]),
                 !.D = @ \ {id}]
  ELSE
  LET j == a.E[id]
      b1 == VIf(a, j.st # "Queued", "C03", "executed without a request", id)
      b2 == VIf(b1, j.st = "Canceled", "C07", "canceled job executed", id)
      b3 == VIf(b2, j.st = "Queued" /\ j.kind # "normal" /\ now < j.at, "C04", "started before it is due", id)
      b4 == VIf(b3, j.st = "Queued" /\ j.kind = "cron" /\ ~SlotAllowed(j), "C05", "started beyond its limits", id)
      older == {i \in DOMAIN a.E : /\ i # id /\ a.E[i].q = j.q /\ a.E[i].st = "Queued"
                                   /\ a.E[i].kind = "normal" /\ a.R[i] >= 0 /\ a.R[i] < a.R[id]}
      b5 == VIf(b4, j.st = "Queued" /\ j.kind = "normal" /\ a.R[id] >= 0 /\ older # {},
                "C12", "started before a job queued earlier", id)
  IN [b5 EXCEPT !.E = Put(@, id, Claimed(j, now)),
                !.X = Put(@, id, [ph |-> "bf", out |-> "", toks |-> << >>, nb |-> a.np, na |-> a.np, free |-> FALSE]),
                !.L = @ \ {id},
                !.exp = Append(@, <<id, "Running">>), !.cl = @ \cup {id}]

Token(a, id, e, p) ==
  IF id \notin DOMAIN a.X THEN a
  ELSE LET ts == Append(a.X[id].toks, <<e, p>>)
           na == IF e = "post" THEN a.np ELSE a.X[id].na
           b  == [a EXCEPT !.X = Put(@, id, [a.X[id] EXCEPT !.toks = ts, !.na = na])]
       IN VIf(b, ~IsPrefix(ts, FullToks(a.X[id].nb, na)), "C13", "hook called at the wrong moment", id)

OneEvent(a, ev, now) ==
  LET id == ev.id IN
  CASE ev.e = "st" -> a
    [] ev.e = "args" -> a
    [] ev.q = -1 /\ ev.e \in {"start", "end"} ->   \* a job made by the function attribute
         IF ev.e = "end" THEN a
         ELSE LET m == {x \in a.A : x.v = ev.v /\ x.d = ev.d /\ x.due <= now}
              IN IF m = {} THEN V(a, "C21", "attribute job executed with other arguments", id)
                 ELSE [a EXCEPT !.A = @ \ {CHOOSE x \in m : TRUE}]
    [] ev.e = "bf" /\ ev.p = 0 ->
         IF id \in DOMAIN a.X /\ a.X[id].ph = "ended" /\ a.X[id].toks # FullToks(a.X[id].nb, a.X[id].na)
         THEN Token(a, id, "bf", 0)
         ELSE Token(Claim(a, id, ev.q, now), id, "bf", 0)
    [] ev.e \in {"bf", "bfx", "af", "afx"} -> Token(a, id, ev.e, ev.p)
    [] ev.e = "pre" ->
         LET b == IF id \in DOMAIN a.X /\ a.X[id].ph = "bf" THEN a ELSE Claim(a, id, ev.q, now)
         IN Token(b, id, "pre", -1)
    [] ev.e = "start" ->
         LET b0 == IF id \in DOMAIN a.X /\ a.X[id].ph = "bf" THEN a ELSE Claim(a, id, ev.q, now)
             b  == Token(b0, id, "start", -1)
         IN IF id \notin DOMAIN b.X THEN b
            ELSE LET j == b.E[id]
                     c1 == VIf(b, (ev.v # j.v \/ ev.d # j.d \/ ev.q # j.q), "C21", "executed with other data", id)
                     c2 == VIf(c1, j.mu # ANY /\ ev.mu # j.mu + MuBefore(j.q), "C21", "executed without its own changes", id)
                     c3 == VIf(c2, j.rc # ANY /\ ev.rc # j.rc + 1 /\ j.q # 5, "C22", "body sees a wrong run count", id)
                 IN [c3 EXCEPT !.X = Put(@, id, [b.X[id] EXCEPT !.ph = "body"])]
    [] ev.e = "end" ->
         LET b == IF ev.out = "panicpre" THEN a ELSE Token(a, id, "end", -1)
         IN IF id \notin DOMAIN b.X THEN b
            ELSE [b EXCEPT !.X = Put(@, id, [b.X[id] EXCEPT !.ph = "ended", !.out = ev.out])]
    [] ev.e = "post" -> Token(a, id, "post", -1)
    [] OTHER -> a

(***************************************************************************)
(* Requests                                                                *)
(***************************************************************************)
(* jobs in limbo are recorded as running, so that requests leave them      *)
EffectL(g, E, p, now) == IF p.id \in g.L \/ p.id \in g.D THEN E ELSE Effect(E, p, now)
Ranks(R, E0, E1, k) ==
  [ x \in DOMAIN E1 |->
      IF x \notin DOMAIN E0 \/ E0[x].st # "Queued"
      THEN IF E1[x].st = "Queued" /\ E1[x].kind = "normal"
           THEN (IF x \in DOMAIN E0 /\ E0[x] = E1[x] THEN R[x] ELSE k)
           ELSE -1
      ELSE IF E1[x].kind # E0[x].kind THEN -1 ELSE R[x] ]
Changes(E0, E1) ==   \* status changes a request makes (at most one job)
  LET s == {x \in DOMAIN E1 : x \notin DOMAIN E0 \/ E0[x].st # E1[x].st}
  IN [i \in 1 .. Cardinality(s) |-> LET x == CHOOSE y \in s : TRUE IN <<x, E1[x].st>>]

(* the request made in this step explains what is seen of the job *)
Explained(E, p, post, now) ==
  /\ post.lab.op \in ReqOps /\ post.lab.id = p.id
  /\ LET F == Effect(E, post.lab, now)
     IN p.id \in DOMAIN F /\ F[p.id].st = post.jobs[p.id].st /\ F[p.id].v = post.jobs[p.id].v
(* a pending call has visibly taken effect *)
Taken(E, p, post, now) ==
  /\ p.id \in DOMAIN post.jobs
  /\ ~Explained(E, p, post, now)
  /\ LET o == post.jobs[p.id] IN
     CASE p.rop = "submit" /\ ~p.ov /\ p.id \in DOMAIN E -> p.re /\ IsDone(E[p.id]) /\ ~IsDone(o)
       [] p.rop = "submit" -> o.v = p.v /\ (p.id \notin DOMAIN E \/ E[p.id].v # p.v)
       [] p.rop = "update" -> p.id \in DOMAIN E /\ o.v = p.v /\ E[p.id].v # p.v
       [] p.rop = "cancel" -> p.id \in DOMAIN E /\ o.st = "Canceled" /\ E[p.id].st = "Queued"
       [] p.rop = "retry"  -> p.id \in DOMAIN E /\ IsDone(E[p.id]) /\ ~IsDone(o)
       [] OTHER -> FALSE
(* applied now, it would change nothing *)
NoEffect(E, p, now) ==
  CASE p.rop = "submit" -> /\ p.id \in DOMAIN E
                           /\ E[p.id].st = "Running" \/ (~p.ov /\ ~(p.re /\ IsDone(E[p.id])))
    [] p.rop = "update" -> p.id \notin DOMAIN E \/ E[p.id].st = "Running"
    [] p.rop = "cancel" -> p.id \notin DOMAIN E \/ E[p.id].st # "Queued"
    [] p.rop = "retry"  -> p.id \notin DOMAIN E \/ ~IsDone(E[p.id])
    [] OTHER -> TRUE

RECURSIVE ApplyTaken(_, _, _)
ApplyTaken(a, post, now) ==   \* a: [E, R, P, exp, k, reg]
  LET cs == {c \in DOMAIN a.P : ~a.P[c].app /\ Taken(a.E, a.P[c].p, post, now)} IN
  IF cs = {} THEN a
  ELSE LET c  == CHOOSE x \in cs : TRUE
           p  == a.P[c].p
           E1 == Effect(a.E, p, now)
       IN ApplyTaken([a EXCEPT !.E = E1, !.R = Ranks(@, a.E, E1, a.k),
                               !.P = Put(@, c, [a.P[c] EXCEPT !.app = TRUE]),
                               !.reg = IF p.rop = "submit" THEN @ \cup {p.q} ELSE @,
                               !.exp = @ \o Changes(a.E, E1)], post, now)

SetCfg(c, p, now) ==
  [n |-> p.n, tick |-> p.tick, oldn |-> IF now <= c.win THEN Max2(c.oldn, c.n) ELSE c.n,
   win |-> now + Max2(c.tick, c.win - now), eff |-> Max2(c.eff, now + c.tick)]
CapHigh(c, now) == IF now <= c.win THEN Max2(c.n, c.oldn) ELSE c.n
CapLow(c, now)  == IF now <= c.win THEN Min2(c.n, c.oldn) ELSE c.n

(***************************************************************************)
(* Observation against model                                               *)
(***************************************************************************)
Count(s, x) == Cardinality({i \in 1 .. Len(s) : s[i] = x})
Settings == {"kind", "at", "per", "once", "sl", "rep", "mr", "ea", "rmax", "rst", "rb", "rh", "ret"}
Data == {"v", "mu", "d"}
Times == {"cr", "eq", "ru", "co", "ca"}
MayBeAny == {"ret", "rc", "mu", "eq", "ru", "co", "ca"}
IsAny(e, f) == f \in MayBeAny /\ e[f] = ANY
Differs(e, o, fs) == \E f \in fs : ~IsAny(e, f) /\ e[f] # o[f]

Judge(id, e, o, lab, kind0, rmax0, isNew, completed) ==
  LET st == e.st # o.st
      set == Differs(e, o, Settings)
      dat == Differs(e, o, Data)
      rc  == Differs(e, o, {"rc"})
      tm  == Differs(e, o, Times)
      mine == lab.id = id
      any == st \/ set \/ dat
  IN   (IF st THEN {<<"C01", "status is " \o o.st \o " instead of " \o e.st, id>>} ELSE {})
  \cup (IF completed /\ kind0 = "cron" /\ (st \/ set) THEN {<<"C05", "wrong after an execution", id>>} ELSE {})
  \cup (IF completed /\ rmax0 # -2 /\ (st \/ set) THEN {<<"C06", "wrong after an execution", id>>} ELSE {})
  \cup (IF completed /\ rmax0 = -2 /\ kind0 # "cron" /\ st THEN {<<"C06", "wrong after an execution", id>>} ELSE {})
  \cup (IF isNew /\ kind0 = "cron" /\ set THEN {<<"C05", "wrong first occurrence", id>>} ELSE {})
  \cup (IF lab.rop = "cancel" /\ any THEN {<<"C07", "wrong after a cancel request", id>>} ELSE {})
  \cup (IF lab.rop = "retry" /\ mine /\ (any \/ rc) THEN {<<"C08", "wrong after a retry request", id>>} ELSE {})
  \cup (IF lab.rop \in {"submit", "update"} /\ mine /\ ~isNew /\ (any \/ rc)
        THEN {<<"C09", "wrong after a resubmission or update", id>>} ELSE {})
  \cup (IF set \/ dat THEN {<<"C21", "data or settings changed", id>>} ELSE {})
  \cup (IF rc \/ tm THEN {<<"C22", "run count or times wrong", id>>} ELSE {})

Adopt(e, o) == [f \in DOMAIN e |-> IF IsAny(e, f) THEN o[f] ELSE e[f]]

ListsOk(post) ==
  \A q \in {x \in Queues : QName[x + 1] \in DOMAIN post.ls} :
    LET ls == post.ls[QName[q + 1]]
        ids == {i \in DOMAIN post.jobs : post.jobs[i].q = q}
    IN /\ \A s \in Listed : \A i \in ids : Count(ls[s], i) = (IF post.jobs[i].st = s THEN 1 ELSE 0)
       /\ \A s \in Listed : \A n \in 1 .. Len(ls[s]) : ls[s][n] \in ids
       /\ \A n \in 1 .. Len(ls["Canceled"]) :
            ls["Canceled"][n] \in ids /\ post.jobs[ls["Canceled"][n]].st = "Canceled"

StSeq(ev, p, id) ==
  LET s == SelectSeq(ev, LAMBDA e : e.e = "st" /\ e.p = p /\ e.id = id)
  IN [i \in 1 .. Len(s) |-> s[i].s]
ExpSeq(exp, id) ==
  LET s == SelectSeq(exp, LAMBDA e : e[1] = id)
  IN [i \in 1 .. Len(s) |-> s[i][2]]
NotifiedOk(a, ev) ==
  LET ids == {ev[i].id : i \in {n \in 1 .. Len(ev) : ev[n].e = "st"}} \cup {a.exp[i][1] : i \in 1 .. Len(a.exp)}
  IN \A id \in ids : \A p \in 0 .. a.np - 1 : StSeq(ev, p, id) = ExpSeq(a.exp, id)

InQ(E, q, st) == {i \in DOMAIN E : E[i].q = q /\ E[i].st = st}
(* could have been started in this step; cl: what was started *)
Eligible(g, E, now, id, cl) ==
  /\ E[id].st = "Queued" /\ E[id].q \in g.reg
  /\ id \notin g.D
  /\ IsDue(E[id], now)
  /\ Cardinality(InQ(E, E[id].q, "Running") \cup {i \in cl : E[i].q = E[id].q}) < CapLow(g.cfg[E[id].q], now)
NewSince(g, E, pre, post, cl) ==
  LET el == {id \in DOMAIN E : Eligible(g, E, post.now, id, cl)}
  IN [id \in el |-> IF id \in DOMAIN g.S THEN g.S[id] ELSE Max2(pre.now, Min2(post.now, DueTime(E[id])))]
LateIds(g, E, S, post) ==
  LET slack == IF post.lab.op = "adv" THEN post.lab.ms ELSE 0
  IN {id \in DOMAIN S :
        LET c == g.cfg[E[id].q] IN post.now > Max2(S[id], c.eff) + 2 * c.tick + slack}

Hangs == {"stuck", "livelock", "deadlock", "panic"}
(* properties about the moment or the fact of an execution that did not happen *)
LateProps(j, id, g) ==
  {"C02", "C03"} \cup (IF j.kind = "cron" THEN {"C05"} ELSE {})
          \cup (IF j.ret # ANY /\ j.ret > 0 THEN {"C06"} ELSE {})
          \cup (IF id \in g.M THEN {"C08"} ELSE {})
          \cup (IF id \in g.U THEN {"C09"} ELSE {})
          \cup (IF id \in g.K THEN {"C07"} ELSE {})

(* After failing operations or a crash the lists may hold leftovers of     *)
(* interrupted requests, and order, notifications and times of the jobs    *)
(* concerned are not promised.                                             *)
NotAfterFailures == {"C11", "C12", "C13", "C22"}
(* a violation in a trace owned by a property counts for that property too *)
Owned(g, vs0) ==
  LET vs == IF g.dist THEN {x \in vs0 : x[1] \notin NotAfterFailures} ELSE vs0
  IN IF g.own \in {"", "C10"} THEN vs ELSE vs \cup {<<g.own, x[2], x[3]>> : x \in vs}

(***************************************************************************)
(* One undisturbed step                                                    *)
(***************************************************************************)
Step(g, pre, post) ==
  LET lab == post.lab
      now == post.now
      k == g.k + 1
      \* pending calls
      P0 == IF lab.op = "begin"
            THEN Put(g.P, lab.c, [p |-> [lab EXCEPT !.t0 = now], app |-> FALSE, noop |-> NoEffect(g.E, lab, now)])
            ELSE g.P
      a0 == ApplyTaken([E |-> g.E, R |-> g.R, P |-> P0, exp |-> << >>, k |-> k, reg |-> g.reg], post, now)
      \* a caller that gives up: the request is carried out entirely or not at all
      gaveUp(c) == lab.op = "drop" /\ lab.c = c /\ lab.res = "dropped"
      P1 == [c \in DOMAIN a0.P |-> [a0.P[c] EXCEPT !.noop = (@ \/ NoEffect(a0.E, a0.P[c].p, now) \/ gaveUp(c))]]
      ends == lab.op = "end" \/ (lab.op \in {"begin", "poll"} /\ lab.res \notin {"pending", "none"})
      \* fire-and-forget submissions take effect some time later, the others before they return
      just(c) == P1[c].p.via = "just" /\ ~P1[c].app /\ ~P1[c].noop
      mustApply == lab.op = "end" /\ lab.c \in DOMAIN P1 /\ ~P1[lab.c].app /\ ~P1[lab.c].noop /\ ~just(lab.c)
      dropped == IF lab.op = "adv" THEN {c \in DOMAIN P1 : just(c)} ELSE {}
      \* direct request
      direct == lab.op \in ReqOps
      poison == direct /\ lab.rop \in {"submit", "update"} /\ lab.v \in Poison
      reject == (lab.rop = "submit" /\ lab.q \in Refused) \/ poison
      \* a pending submission may or may not have created the queue already
      wasReg == \/ lab.q \in a0.reg
                \/ lab.res # "err" /\ \E c \in DOMAIN P1 : P1[c].p.rop = "submit" /\ P1[c].p.q = lab.q
      \* the first use of a queue after a restart polls: a waiting job may have been
      \* started just before a resubmission of it arrives
      claimFirst == /\ lab.op = "submit" /\ lab.q \notin a0.reg
                    /\ lab.id \in DOMAIN a0.E /\ a0.E[lab.id].st = "Queued"
                    /\ lab.id \in DOMAIN post.jobs /\ post.jobs[lab.id].st = "Running"
                    /\ ~Differs(Claimed(a0.E[lab.id], now), post.jobs[lab.id], Settings \cup Data \cup {"cr"})
      E1 == IF claimFirst THEN a0.E
            ELSE IF direct /\ ~reject /\ (wasReg \/ lab.rop = "submit") THEN EffectL(g, a0.E, lab, now)
            ELSE IF mustApply THEN Effect(a0.E, P1[lab.c].p, now) ELSE a0.E
      ans == IF reject THEN "err" ELSE Answer(a0.E, lab, wasReg)
      resBad == (direct /\ lab.res # ans /\ ~(poison /\ NoEffect(a0.E, lab, now)))
                \/ (lab.op = "end" /\ lab.c \in DOMAIN P1 /\ P1[lab.c].p.rop \in {"submit", "update", "cancel"}
                    /\ lab.res \notin {"ok", "none"})
      cfg1 == IF direct /\ lab.rop = "cap" /\ wasReg
              THEN [g.cfg EXCEPT ![lab.q] = SetCfg(@, lab, now)] ELSE g.cfg
      reg1 == IF lab.op = "submit" /\ lab.q # 7 THEN a0.reg \cup {lab.q} ELSE a0.reg
      A1 == IF lab.op = "attr"
            THEN g.A \cup {[v |-> lab.v, d |-> lab.d, k |-> k, due |-> IF lab.kind = "sched" THEN Max2(lab.at, now) ELSE now]}
            ELSE g.A
      b0 == [E |-> E1, X |-> g.X, R |-> Ranks(a0.R, a0.E, E1, k), v |-> {}, exp |-> a0.exp \o Changes(a0.E, E1),
             cl |-> {}, co |-> {}, k |-> k, np |-> g.np, L |-> g.L, D |-> g.D, A |-> A1]
      b1 == FoldLeft(LAMBDA acc, e : OneEvent(acc, e, now), b0, post.ev)
      \* executions that ended and left
      inEx(id) == \E i \in 1 .. Len(post.ex) : post.ex[i].id = id
      gone == {id \in DOMAIN b1.X : b1.X[id].ph = "ended" /\ ~inEx(id)}
      b2 == FoldLeft(LAMBDA acc, id : Complete(acc, id, now), b1, SetToSeq(gone))
      E2 == b2.E
      g1 == [g EXCEPT !.cfg = cfg1, !.reg = reg1, !.D = b2.D, !.L = b2.L]
      S2 == LET s == NewSince(g1, E2, pre, post, b2.cl)
            IN [id \in DOMAIN s |-> IF id \in b2.cl THEN now ELSE s[id]]
      late == LateIds(g1, E2, S2, post)
      lateA == {x \in b2.A : now > Max2(x.due, 0) + 2 * DefaultTick
                                   + (IF lab.op = "adv" THEN lab.ms ELSE 0) /\ x.k < k}
      M2 == (IF lab.op = "retry" /\ lab.res = "true" THEN g.M \cup {lab.id} ELSE g.M) \ b2.cl
      U2 == (IF lab.rop \in {"submit", "update"} /\ lab.op \in ReqOps \cup {"begin"} /\ lab.id \in DOMAIN g.E
             THEN g.U \cup {lab.id} ELSE g.U) \ b2.cl
      K2 == (IF lab.rop = "cancel" /\ lab.op \in ReqOps \cup {"begin"}
             THEN g.K \cup {id \in DOMAIN E2 : id # lab.id /\ E2[id].st = "Queued"} ELSE g.K) \ b2.cl
      claimQ == {E2[id].q : id \in b2.cl}
      soon == {q \in claimQ : /\ g.lc[q] > cfg1[q].eff /\ now > cfg1[q].eff
                              /\ now - g.lc[q] < cfg1[q].tick}
      lc2 == [q \in DOMAIN g.lc |-> IF q \in claimQ THEN (IF lab.op = "adv" THEN pre.now ELSE now) ELSE g.lc[q]]
      judged == {id \in DOMAIN E2 : id \in DOMAIN post.jobs /\ id \notin b2.D}
      vJudge == UNION {Judge(id, IF id \in b2.L THEN [E2[id] EXCEPT !.st = post.jobs[id].st] ELSE E2[id],
                             post.jobs[id], lab,
                             IF id \in DOMAIN E1 THEN E1[id].kind ELSE "normal",
                             IF id \in DOMAIN E1 THEN E1[id].rmax ELSE -2,
                             id \notin DOMAIN g.E, id \in b2.co) : id \in judged}
      lost == {id \in DOMAIN E2 : id \notin DOMAIN post.jobs /\ id \notin b2.D}
      extra == {id \in DOMAIN post.jobs : id \notin DOMAIN E2}
      wrongId == {id \in DOMAIN post.jobs : post.jobs[id].id # id}
      dead == {id \in DOMAIN b2.X : ~inEx(id)}
      twice == {id \in DOMAIN E2 : Cardinality({i \in 1 .. Len(post.ex) : post.ex[i].id = id}) > 1}
      over == {q \in Queues : /\ \E id \in b2.cl : E2[id].q = q
                              /\ Cardinality({id \in DOMAIN b2.X : E2[id].q = q}) > CapHigh(cfg1[q], now)}
      early == {id \in b2.co : b2.E[id].st = "Queued"}
      vs == b2.v \cup vJudge
        \cup UNION {{<<p, "not executed in time", id>> : p \in LateProps(E2[id], id, g)} : id \in late}
        \cup (IF g.own = "C10" THEN {<<"C10", "not executed in time", id>> : id \in late} ELSE {})
        \cup {<<"C21", "attribute job not executed", ToString(x.v)>> : x \in lateA}
        \cup {<<"C02", "fire-and-forget submission lost", P1[c].p.id>> : c \in dropped}
        \cup {<<p, "job is gone", id>> : p \in {"C02", "C21"}, id \in lost}
        \cup {<<"C09", "unexpected job", id>> : id \in extra}
        \cup {<<p, "lookup returns another id", id>> : p \in {"C09", "C21"}, id \in wrongId}
        \cup {<<p, "execution vanished", id>> : p \in {"C01", "C02"}, id \in dead}
        \cup {<<"C03", "two executions in progress", id>> : id \in twice}
        \cup {<<"C10", "limit exceeded", ToString(q)>> : q \in over}
        \cup {<<"C10", "polls more often than configured", ToString(q)>> : q \in soon}
        \cup (IF resBad /\ lab.rop = "cancel" THEN {<<"C07", "answer is " \o lab.res, lab.id>>} ELSE {})
        \cup (IF resBad /\ lab.rop = "retry" THEN {<<"C08", "answer is " \o lab.res, lab.id>>} ELSE {})
        \cup (IF resBad /\ lab.rop = "update"
              THEN {<<IF poison THEN "C21" ELSE "C09", "answer is " \o lab.res, lab.id>>} ELSE {})
        \cup (IF resBad /\ lab.rop = "cap" THEN {<<"C10", "answer is " \o lab.res, lab.id>>} ELSE {})
        \cup (IF resBad /\ lab.rop = "submit"
              THEN {<<p, "answer is " \o lab.res, lab.id>> : p \in {"C02", "C09", "C21"}} ELSE {})
        \cup (IF resBad /\ lab.op = "end" THEN {<<"C02", "answer is " \o lab.res, lab.id>>} ELSE {})
        \cup (IF lab.op = "badcron" /\ lab.res # "err" THEN {<<"C05", "an expression without meaning is accepted", "">>} ELSE {})
        \cup (IF g.np > 0 /\ ~NotifiedOk(b2, post.ev) THEN {<<"C13", "status changes and notifications differ", "">>} ELSE {})
        \cup (IF ~ListsOk(post) THEN {<<"C11", "lists and records differ", "">>} ELSE {})
        \cup (IF /\ lab.rop \in {"submit", "update"} /\ lab.op \in ReqOps /\ lab.id \in DOMAIN E2
                 /\ E2[lab.id].st = "Queued" /\ lab.id \in DOMAIN post.jobs /\ post.jobs[lab.id].st = "Queued"
                 /\ ~g.dist /\ QName[E2[lab.id].q + 1] \in DOMAIN post.ls /\ Count(post.ls[QName[E2[lab.id].q + 1]]["Queued"], lab.id) # 1
              THEN {<<"C09", "not waiting exactly once", lab.id>>} ELSE {})
      E3 == [id \in DOMAIN E2 |-> IF id \in DOMAIN post.jobs THEN Adopt(E2[id], post.jobs[id]) ELSE E2[id]]
      E4 == [id \in DOMAIN E3 |-> IF id \in b2.D /\ id \in DOMAIN post.jobs
                                  THEN [E3[id] EXCEPT !.st = post.jobs[id].st] ELSE E3[id]]
      P2 == IF ends /\ lab.c \in DOMAIN P1 /\ ~just(lab.c) THEN Drop(P1, lab.c)
            ELSE [c \in DOMAIN P1 \ dropped |-> P1[c]]
  IN [ g |-> [g1 EXCEPT !.np = IF lab.op = "plug" THEN @ + 1 ELSE @, !.E = E4, !.X = b2.X, !.S = S2, !.R = b2.R, !.P = P2, !.A = b2.A \ lateA,
                        !.M = M2, !.U = U2, !.K = K2, !.lc = lc2, !.k = k],
       v |-> Owned(g, vs) ]

(***************************************************************************)
(* A step in which backend operations failed, or the process crashed.      *)
(* The model accepts every way in which a request was carried out entirely *)
(* or not at all, and goes on from what is recorded.                       *)
(***************************************************************************)
OfModel(o) == [f \in DOMAIN o \ {"id"} |-> o[f]]

Disturbed(g, pre, post) ==
  LET lab == post.lab
      now == post.now
      k == g.k + 1
      crash == lab.op = "crash"
      req == lab.rop \in ReqOps \ {"cap"}
      success == ~crash /\ lab.res \in {"ok", "true"} /\ lab.via # "just"   \* fire and forget reports nothing
      Eff == IF req THEN EffectL(g, g.E, lab, now) ELSE g.E
      obs == post.jobs
      agree(E, id) == /\ id \in DOMAIN E /\ id \in DOMAIN obs /\ E[id].v = obs[id].v
                      /\ \/ E[id].st = obs[id].st
                         \/ id \in g.L /\ obs[id].st = "Running"
                         \/ E[id].st = "Queued" /\ obs[id].st = "Running"
      absent(E, id) == id \notin DOMAIN E /\ id \notin DOMAIN obs
      okOld == agree(g.E, lab.id) \/ absent(g.E, lab.id)
      okNew == agree(Eff, lab.id) \/ absent(Eff, lab.id)
      E1 == IF req /\ (okNew /\ (success \/ ~okOld)) THEN Eff ELSE g.E
      b0 == [E |-> E1, X |-> IF crash THEN EmptyF ELSE g.X, R |-> Ranks(g.R, g.E, E1, k), v |-> {},
             exp |-> << >>, cl |-> {}, co |-> {}, k |-> k, np |-> g.np, L |-> g.L, D |-> g.D, A |-> g.A]
      b1 == IF crash THEN b0 ELSE FoldLeft(LAMBDA acc, e : OneEvent(acc, e, now), b0, post.ev)
      inEx(id) == \E i \in 1 .. Len(post.ex) : post.ex[i].id = id
      gone == {id \in DOMAIN b1.X : b1.X[id].ph = "ended" /\ ~inEx(id)}
      b2 == FoldLeft(LAMBDA acc, id : Complete(acc, id, now), b1, SetToSeq(gone))
      X2 == b2.X
      \* the job whose execution ended during a crash
      ended == IF crash /\ lab.rop = "done" THEN {lab.id} ELSE gone
      known == DOMAIN b2.E \cup DOMAIN g.E
      D2 == IF crash THEN {id \in DOMAIN obs : obs[id].st = "Running"} ELSE g.D
      wrong == {id \in DOMAIN b2.E : /\ id \notin g.D /\ id \notin ended
                                     /\ ~(req /\ id = lab.id)
                                     /\ ~agree(b2.E, id) /\ ~agree(g.E, id)}
      L2 == IF crash THEN {}
            ELSE {id \in DOMAIN obs : obs[id].st = "Running" /\ id \notin DOMAIN X2 /\ id \notin g.D}
      E3 == [id \in DOMAIN obs |->
               LET o == OfModel(obs[id]) IN IF id \in L2 THEN [o EXCEPT !.st = "Queued"] ELSE o]
      reg1 == IF crash THEN {} ELSE IF lab.op = "submit" THEN g.reg \cup {lab.q} ELSE g.reg
      over == {q \in Queues : /\ \E id \in b2.cl : E3[id].q = q
                              /\ Cardinality({id \in DOMAIN X2 : E3[id].q = q}) > CapHigh(g.cfg[q], now)}
      dead == {id \in DOMAIN X2 : ~inEx(id)}
      vs == {x \in b2.v : x[1] \in {"C03", "C04", "C07"}}
        \cup (IF req /\ success /\ ~okNew
              THEN {<<"C02", "reported success without effect", lab.id>>} ELSE {})
        \cup (IF req /\ ~okNew /\ ~okOld THEN {<<"C02", "neither done nor undone", lab.id>>} ELSE {})
        \cup {<<"C02", "changed by a failure elsewhere", id>> : id \in wrong}
        \cup {<<"C10", "limit exceeded", ToString(q)>> : q \in over}
        \cup {<<"C02", "execution vanished", id>> : id \in dead}
        \cup (IF lab.res \in Hangs THEN {<<"C02", "engine hangs: " \o lab.res, lab.id>>} ELSE {})
      R3 == [id \in DOMAIN E3 |-> -1]
  IN [ g |-> [g EXCEPT !.E = E3, !.X = X2, !.S = EmptyF, !.R = R3, !.P = IF crash THEN EmptyF ELSE @,
                       !.reg = reg1, !.L = L2, !.D = D2, !.k = k, !.dist = TRUE,
                       !.cfg = IF crash THEN InitG(0, "").cfg ELSE @,
                       !.lc = InitG(0, "").lc],
       v |-> Owned(g, vs) ]

Next1(g, pre, post) ==
  IF post.lab.op = "crash" \/ post.lab.nf > 0 THEN Disturbed(g, pre, post)
  ELSE IF post.lab.res \in {"livelock", "deadlock"}
       THEN [g |-> g, v |-> Owned(g, {<<"C02", "engine hangs: " \o post.lab.res, post.lab.id>>})]
       ELSE Step(g, pre, post)
=============================================================================
