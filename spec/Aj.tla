--------------------------------- MODULE Aj ---------------------------------
(***************************************************************************)
(* The design model: how the engine carries out requests, polls and        *)
(* executions, operation by operation on the backend (seven operations on  *)
(* named lists and a map), including operations that fail and a process    *)
(* that stops between two operations.                                      *)
(*                                                                         *)
(*   one work queue = one actor: a request, a poll and the recording of an *)
(*   outcome are each one uninterrupted program on the backend; only the   *)
(*   hooks and the body of an execution take time                          *)
(*                                                                         *)
(* Every step yields an observation, and the property kernel (AjStep)      *)
(* judges it; the invariant Safe says that it never objects.  The bounds   *)
(* (which requests, how many steps, which faults) are a Scope, read from a *)
(* file, and Scope.bugs switches in the defects the implementation had or  *)
(* could have, to see that the kernel objects to them.                     *)
(*                                                                         *)
(* With Scope.emit every generated step prints its history; the histories  *)
(* are replayed against the real engine (see check.py and AjTrace).        *)
(***************************************************************************)
EXTENDS AjStep, Json, IOUtils

Scopes == ndJsonDeserialize(IOEnv.AJ_SCOPE)
VARIABLE si                   \* which scope; never changes
Scope == Scopes[si]
Menu  == Scope.menu           \* requests, a sequence of labels
Bugs  == {Scope.bugs[i] : i \in 1 .. Len(Scope.bugs)}
Batch == Scope.batch          \* ids read from the waiting list at a time
NP    == Scope.np
Outs  == {Scope.outs[i] : i \in 1 .. Len(Scope.outs)}
Advs  == {Scope.advs[i] : i \in 1 .. Len(Scope.advs)}
Clients == {Scope.clients[i] : i \in 1 .. Len(Scope.clients)}
Faults  == {Scope.faults[i] : i \in 1 .. Len(Scope.faults)}   \* [from, len]
Crashes == {Scope.crashes[i] : i \in 1 .. Len(Scope.crashes)}
Holds == Scope.holds          \* hooks may be held
IdsOf == {Menu[i].id : i \in 1 .. Len(Menu)}
Bug(b) == b \in Bugs

Statuses == {"Queued", "Running", "Finished", "Failed", "Canceled"}
NoLab == [ op |-> "", rop |-> "", id |-> "", q |-> 0, v |-> 0, d |-> "", kind |-> "normal", at |-> 0,
           delay |-> -1, per |-> 1000, once |-> -1, sl |-> << >>, rh |-> 0, ret0 |-> 0, mr |-> -1, ea |-> -1, rmax |-> -2, rst |-> "int",
           rb |-> 100, re |-> TRUE, ov |-> TRUE, ctx |-> FALSE, rc0 |-> 0, n |-> 20, tick |-> 100,
           ms |-> 0, out |-> "", res |-> "", nf |-> 0, c |-> "", via |-> "run", t0 |-> -1 ]
NoEv == [ e |-> "", id |-> "", q |-> 0, rc |-> -1, v |-> -1, mu |-> -1, d |-> "", p |-> -1, s |-> "",
          out |-> "", t |-> -1 ]

VARIABLES
  w,      \* the world: clock, backend, executions, queues, pending calls
  obs,    \* the latest observation
  g,      \* the kernel's model
  viol,   \* what the kernel objects to in the latest step
  hist,   \* the history, as commands for the replay
  rng     \* random choices of a walk (<<0, 0>> when all choices are explored)
vars == <<si, w, obs, g, viol, hist, rng>>

EmptyLists == [q \in Queues |-> [s \in Statuses |-> << >>]]
DefCfg == [q \in Queues |-> [n |-> DefaultCap, tick |-> DefaultTick]]
World0 == [ now |-> 0, jobs |-> EmptyF, ls |-> EmptyLists, ex |-> EmptyF, cfg |-> DefCfg,
            nxt |-> [q \in Queues |-> -1], cl |-> EmptyF, hb |-> FALSE, ha |-> FALSE ]

(***************************************************************************)
(* Backend operations.  A program state s carries the backend, the number  *)
(* of operations so far, the window of failing ones, the one before which  *)
(* the process stops, and the events.                                      *)
(***************************************************************************)
Prog(W, f, cr) == [ jobs |-> W.jobs, ls |-> W.ls, now |-> W.now, n |-> 0, from |-> f.from,
                    to |-> f.from + f.len, cr |-> cr, err |-> FALSE, dead |-> FALSE, nf |-> 0,
                    ev |-> << >>, res |-> "ok" ]
Stopped(s) == s.err \/ s.dead
Op(s, F(_)) ==
  IF Stopped(s) THEN s
  ELSE IF s.n = s.cr THEN [s EXCEPT !.dead = TRUE]
  ELSE IF s.n >= s.from /\ s.n < s.to
  THEN [s EXCEPT !.n = @ + 1, !.err = TRUE, !.nf = @ + 1]
  ELSE F([s EXCEPT !.n = @ + 1])
(* errors of the operations from s0 to s1 are only logged *)
Ignore(s0, s1) == IF s1.err /\ ~s0.err THEN [s1 EXCEPT !.err = FALSE] ELSE s1

PushL(s, q, st, id) == Op(s, LAMBDA t : [t EXCEPT !.ls[q][st] = <<id>> \o @])
RemoveL(s, q, st, id) == Op(s, LAMBDA t : [t EXCEPT !.ls[q][st] = SelectSeq(@, LAMBDA x : x # id)])
MoveL(s, q, a, b) ==      \* one item from the back of a to the front of b
  Op(s, LAMBDA t : IF t.ls[q][a] = << >> THEN t
                   ELSE LET x == t.ls[q][a][Len(t.ls[q][a])]
                            u == [t EXCEPT !.ls[q][a] = SubSeq(@, 1, Len(@) - 1)]
                        IN [u EXCEPT !.ls[q][b] = <<x>> \o @])
Read(s) == Op(s, LAMBDA t : t)
StEvs(id, st) == [i \in 1 .. NP |-> [NoEv EXCEPT !.e = "st", !.p = i - 1, !.id = id, !.q = -1, !.s = st]]
Store(s, id, r) == Op(s, LAMBDA t : [t EXCEPT !.jobs = Put(@, id, r)])
(* store and tell the plugins *)
Change(s, id, r) ==
  LET t == Store(s, id, r)
  IN IF Stopped(t) \/ Bug("notify" \o r.st) THEN t ELSE [t EXCEPT !.ev = @ \o StEvs(id, r.st)]

(***************************************************************************)
(* The programs                                                            *)
(***************************************************************************)
PushQueued(s, q, id) ==
  IF Bug("duppush") THEN PushL(s, q, "Queued", id)
  ELSE PushL(RemoveL(s, q, "Queued", id), q, "Queued", id)
Enqueue(s, id, r) ==
  LET r2 == [r EXCEPT !.st = "Queued", !.eq = s.now]
  IN IF Bug("storefirst") THEN PushQueued(Change(s, id, r2), r.q, id)
     ELSE Change(PushQueued(s, r.q, id), id, r2)
ReEnqueue(s, id, r) ==
  IF Bug("removefirst")
  THEN Enqueue(RemoveL(s, r.q, r.st, id), id, r)
  ELSE LET s1 == Enqueue(s, id, r) IN
       IF Bug("keepold") THEN s1 ELSE Ignore(s1, RemoveL(s1, r.q, r.st, id))

Fresh(p, now) == [NewRec(p, now) EXCEPT !.eq = -1]

RunWithConfig(s0, id, new, re0, ov0) ==
  LET s == Read(s0) IN
  IF Stopped(s) THEN s
  ELSE IF id \notin DOMAIN s.jobs THEN Enqueue(s, id, new)
  ELSE LET e  == s.jobs[id]
           re == re0 /\ IsDone(e)
           ov == ov0 /\ (e.st # "Running" \/ Bug("ovrunning"))
           nw == IF Bug("statuslost") THEN new ELSE [new EXCEPT !.st = e.st]
       IN IF ~ov THEN (IF re THEN ReEnqueue(s, id, e) ELSE s)
          ELSE IF re THEN ReEnqueue(s, id, nw)
          ELSE Store(s, id, nw)

DoSubmit(s, p) == RunWithConfig(s, p.id, Fresh(p, s.now), p.re, p.ov)
DoCancel(s0, p) ==
  LET s == Read(s0) IN
  IF Stopped(s) \/ p.id \notin DOMAIN s.jobs THEN s
  ELSE LET j == s.jobs[p.id] IN
       IF j.st # "Queued" /\ ~(Bug("cancelrunning") /\ j.st = "Running") THEN s
       ELSE LET s1 == Change(s, p.id, [j EXCEPT !.st = "Canceled", !.ca = s.now])
            IN IF Bug("cancelkeep") THEN s1 ELSE RemoveL(s1, j.q, "Queued", p.id)
DoRetry(s0, p) ==
  LET s == Read(s0) IN
  IF Stopped(s) THEN s
  ELSE IF p.id \in DOMAIN s.jobs /\ (IsDone(s.jobs[p.id]) \/ (Bug("retryany") /\ s.jobs[p.id].st = "Queued"))
  THEN [ReEnqueue(s, p.id, s.jobs[p.id]) EXCEPT !.res = "true"]
  ELSE [s EXCEPT !.res = "false"]
DoUpdate(s0, p) ==
  LET s == Read(s0) IN
  IF Stopped(s) \/ p.id \notin DOMAIN s.jobs THEN s
  ELSE LET j == s.jobs[p.id]
           n == IF p.ctx THEN [Fresh(p, s.now) EXCEPT !.q = j.q, !.rc = 0]
                ELSE [j EXCEPT !.v = p.v, !.d = p.d, !.mu = 0]
       IN RunWithConfig(s, p.id, n, TRUE, TRUE)
DoRequest(s, p) ==
  LET t == CASE p.rop = "submit" -> DoSubmit(s, p)
             [] p.rop = "cancel" -> DoCancel(s, p)
             [] p.rop = "retry"  -> DoRetry(s, p)
             [] p.rop = "update" -> DoUpdate(s, p)
             [] OTHER -> s
  IN IF t.err THEN [t EXCEPT !.res = "err", !.err = FALSE] ELSE t

(* a poll: yields the program state and the sequence of claimed ids *)
Ready(j, now) ==
  CASE j.kind = "normal" -> TRUE
    [] j.kind = "sched"  -> IF Bug("early") THEN TRUE ELSE now > j.at
    [] OTHER             -> now >= j.at /\ (SlotAllowed(j) \/ Bug("nolimits"))
LastRev(sq, n) == LET k == Min2(n, Len(sq)) IN [i \in 1 .. k |-> sq[Len(sq) + 1 - i]]

RECURSIVE PickEach(_, _, _, _, _)
PickEach(s0, q, ids, total, picked) ==
  IF ids = << >> \/ (Len(picked) >= total /\ ~Bug("nofifo")) THEN <<s0, picked>>
  ELSE
  LET id == Head(ids)
      s  == Read(s0)
      ok == /\ id \in DOMAIN s.jobs /\ (~IsDone(s.jobs[id]) \/ Bug("pickdone")) /\ Ready(s.jobs[id], s.now)
            /\ \A i \in 1 .. Len(picked) : picked[i] # id
            /\ Len(picked) < total
  IN IF Stopped(s) THEN <<s, picked>>
     ELSE IF ok
     THEN LET s1 == Change(s, id, [s.jobs[id] EXCEPT !.st = "Running", !.ru = s.now])
              s2 == MoveL(s1, q, "Queued", "Running")
          IN IF Stopped(s2) THEN <<s2, picked>>
             ELSE PickEach(s2, q, Tail(ids), total, Append(picked, id))
     ELSE LET s1 == MoveL(s, q, "Queued", "Queued")
          IN IF Stopped(s1) THEN <<s1, picked>> ELSE PickEach(s1, q, Tail(ids), total, picked)

RECURSIVE PickLoop(_, _, _, _, _)
PickLoop(s0, q, cursor, total, picked) ==
  LET s   == Read(s0)
      ids == LastRev(s.ls[q]["Queued"], Batch)
      r   == PickEach(s, q, ids, total, picked)
      c   == cursor - Len(ids)
  IN IF Stopped(s) THEN <<s, picked>>
     ELSE IF Stopped(r[1]) \/ Len(r[2]) >= total \/ c <= 0 \/ Bug("onebatch") THEN r
     ELSE PickLoop(r[1], q, c, total, r[2])

PollQ(s0, q, cap) ==
  LET s == Read(s0)
      busy == Len(s.ls[q]["Running"])
      s1 == Read(s)
  IN IF s.dead THEN <<s, << >>>>
     ELSE IF s.err /\ Bug("unknownload") THEN PickLoop([s EXCEPT !.err = FALSE], q, Len(s.ls[q]["Queued"]), cap, << >>)
     ELSE IF s.err \/ (busy >= cap /\ ~Bug("nocap")) THEN <<[s EXCEPT !.err = FALSE], << >>>>
     ELSE IF Stopped(s1) THEN <<[s1 EXCEPT !.err = FALSE], << >>>>
     ELSE LET r == PickLoop(s1, q, Len(s1.ls[q]["Queued"]), Max2(cap - busy, 1), << >>)
          IN IF r[1].err /\ Bug("pickerr") THEN <<[r[1] EXCEPT !.err = FALSE], << >>>>
             ELSE <<[r[1] EXCEPT !.err = FALSE], r[2]>>

(***************************************************************************)
(* Executions: x = [rec, ph, p]: in the before-hook of plugin p, in the    *)
(* body, in the after-hook of plugin p                                     *)
(***************************************************************************)
Hook(e, p, id) == [NoEv EXCEPT !.e = e, !.p = p, !.id = id, !.q = -1]
BodyEv(e, j, id) == [NoEv EXCEPT !.e = e, !.id = id, !.q = j.q]
RECURSIVE Hooks(_, _, _, _)
Hooks(e1, e2, p, id) ==
  IF p >= NP THEN << >> ELSE <<Hook(e1, p, id), Hook(e2, p, id)>> \o Hooks(e1, e2, p + 1, id)
StartEvs(j, id) ==
  << BodyEv("pre", j, id),
     [BodyEv("start", j, id) EXCEPT !.rc = j.rc + 1, !.v = j.v, !.d = j.d, !.mu = j.mu + MuBefore(j.q)] >>

(* what the engine records at the end of an execution *)
Outcome(j, out, now) ==
  LET n == Completed(j, out, now) IN
  IF out \in Panics THEN [n EXCEPT !.rc = j.rc, !.mu = j.mu]
  ELSE IF Bug("lostcron") /\ out = "err" /\ j.kind = "cron" /\ n.st = "Queued" /\ j.ret # n.ret
  THEN [n EXCEPT !.kind = "sched", !.per = 0, !.rep = 0, !.mr = -1, !.ea = -1]
  ELSE IF n.ret = ANY THEN [n EXCEPT !.ret = j.ret + 1] ELSE n
DoRecord(s, id, j, out) ==
  LET n == Outcome(j, out, s.now) IN
  IF n.st = "Queued" THEN ReEnqueue(s, id, [n EXCEPT !.st = "Running"])
  ELSE IF n.st = "Finished"
  THEN LET s1 == RemoveL(s, j.q, "Running", id)
           s2 == Change(Ignore(s, s1), id, n)
       IN PushL(s2, j.q, "Finished", id)
  ELSE LET s1 == Change(s, id, n)
           s2 == IF Bug("slotleak") /\ out \in Panics THEN s1 ELSE RemoveL(s1, j.q, "Running", id)
       IN PushL(s2, j.q, "Failed", id)

(* the executions of the claimed ids begin *)
RECURSIVE Begin1(_, _, _)
Begin1(a, ids, hb) ==       \* a = [ex, ev, jobs]
  IF ids = << >> THEN a
  ELSE LET id == Head(ids)
           j  == a.jobs[id]
           held == hb /\ NP > 0
           b == IF held
                THEN [a EXCEPT !.ev = Append(@, Hook("bf", 0, id)),
                               !.ex = Put(@, id, [rec |-> j, ph |-> "bf", p |-> 0, out |-> ""])]
                ELSE [a EXCEPT !.ev = @ \o Hooks("bf", "bfx", 0, id) \o StartEvs(j, id),
                               !.ex = Put(@, id, [rec |-> j, ph |-> "body", p |-> 0, out |-> ""])]
       IN Begin1(b, Tail(ids), hb)

(* poll the queues in qs and start what they claim; a = [s, ex] *)
RECURSIVE PollAll(_, _, _)
PollAll(a, qs, W) ==
  IF qs = {} THEN a
  ELSE LET q == CHOOSE x \in qs : \A y \in qs : x <= y
           r == PollQ(a.s, q, W.cfg[q].n)
           b == Begin1([ex |-> a.ex, ev |-> << >>, jobs |-> r[1].jobs], r[2], W.hb)
       IN IF r[1].dead THEN [a EXCEPT !.s = r[1]]
          ELSE PollAll([a EXCEPT !.s = [r[1] EXCEPT !.ev = @ \o b.ev], !.ex = b.ex], qs \ {q}, W)

(***************************************************************************)
(* Steps.  Fin turns the result of a program into the next world and its   *)
(* observation.                                                            *)
(***************************************************************************)
ObsJobs(jobs) == [id \in DOMAIN jobs |->
                   LET r == jobs[id] IN [f \in DOMAIN r \cup {"id"} |-> IF f = "id" THEN id ELSE r[f]]]
ObsLs(ls) == [nm \in {QName[q + 1] : q \in Queues} |-> ls[CHOOSE q \in Queues : QName[q + 1] = nm]]
ObsEx(ex) == LET ids == SetToSeq(DOMAIN ex)
             IN [i \in 1 .. Len(ids) |-> [id |-> ids[i], ph |-> ex[ids[i]].ph, p |-> ex[ids[i]].p]]
Observe(W, lab, ev) ==
  [lab |-> lab, now |-> W.now, jobs |-> ObsJobs(W.jobs), ls |-> ObsLs(W.ls), ex |-> ObsEx(W.ex), ev |-> ev]

After(W, s) == [W EXCEPT !.jobs = s.jobs, !.ls = s.ls]
Crashed(W, s) == [World0 EXCEPT !.now = W.now, !.jobs = s.jobs, !.ls = s.ls]

Emit(h) == IF Scope.emit /\ Len(h) >= Scope.emitfrom THEN PrintT("HIST " \o ToJson(<<si, rng[1], h>>)) ELSE TRUE
Go(W1, lab, ev, cmd) ==
  LET o == Observe(W1, lab, ev)
      r == Next1(g, obs, o)
  IN /\ w' = W1
     /\ obs' = o
     /\ g' = r.g
     /\ viol' = r.v
     /\ hist' = Append(hist, cmd)
     /\ Emit(Append(hist, cmd))

NoFault == [from |-> 1000000, len |-> 0]
Plans == {[f |-> NoFault, cr |-> -1, t |-> ""]}
         \cup {[f |-> [from |-> x[1], len |-> x[2]], cr |-> -1,
                t |-> "f" \o ToString(x[1]) \o "." \o ToString(x[2]) \o ":"] : x \in Faults}
         \cup {[f |-> NoFault, cr |-> c, t |-> "c" \o ToString(c) \o ":"] : c \in Crashes}
Walking == Scope.walks > 0
Disturbs(pl, s) == pl.t = "" \/ s.nf > 0 \/ s.dead \/ Walking

Fin(W, a, lab, cmd, pl) ==    \* a = [s, ex]
  /\ Disturbs(pl, a.s)
  /\ IF a.s.dead THEN Go(Crashed(W, a.s), [lab EXCEPT !.op = "crash", !.res = "ok"], << >>, cmd)
     ELSE Go([After(W, a.s) EXCEPT !.ex = a.ex], [lab EXCEPT !.res = a.s.res, !.nf = a.s.nf], a.s.ev, cmd)

(* first use of a queue starts it, and it polls at once *)
Activate(W, q, s) ==
  IF W.nxt[q] >= 0 THEN [s |-> s, ex |-> W.ex, W |-> W]
  ELSE LET a == PollAll([s |-> s, ex |-> W.ex], {q}, W)
       IN [s |-> a.s, ex |-> a.ex, W |-> [W EXCEPT !.nxt[q] = W.now + W.cfg[q].tick]]
NotRegistered(W, p) == W.nxt[p.q] < 0

Request(i, pl) ==
  LET p == Menu[i]
      cmd == pl.t \o "m" \o ToString(i)
  IN IF p.rop = "cap"
     THEN /\ (pl.t # "" => Walking)
          /\ IF NotRegistered(w, p) THEN Go(w, [p EXCEPT !.res = "err"], << >>, cmd)
             ELSE Go([w EXCEPT !.cfg[p.q] = [n |-> p.n, tick |-> p.tick]], [p EXCEPT !.res = "ok"], << >>, cmd)
     ELSE IF p.rop # "submit" /\ NotRegistered(w, p)
     THEN /\ (pl.t # "" => Walking)
          /\ Go(w, [p EXCEPT !.res = IF p.rop = "update" THEN "ok" ELSE "err"], << >>, cmd)
     ELSE LET c == Activate(w, p.q, Prog(w, pl.f, pl.cr))
              s == IF c.s.dead THEN c.s ELSE DoRequest(c.s, p)
          IN Fin(c.W, [s |-> s, ex |-> c.ex], p, cmd, pl)

(* requests of clients that are polled step by step *)
UniqueV(p) == IF p.rop \in {"submit", "update"}     \* so that its effect can be told
              THEN [p EXCEPT !.v = 1000 + Len(hist), !.d = "d" \o ToString(1000 + Len(hist))] ELSE p
BeginCall(c, i) ==
  LET p == [UniqueV(Menu[i]) EXCEPT !.t0 = w.now]
      lab == [p EXCEPT !.op = "begin", !.c = c, !.res = "pending", !.t0 = -1]
      cmd == "b:" \o c \o ":" \o ToString(i)
      s0 == Prog(w, NoFault, -1)
  IN /\ c \notin DOMAIN w.cl
     /\ p.rop # "cap"
     /\ IF NotRegistered(w, p)
        THEN IF p.rop # "submit"
             THEN Go([w EXCEPT !.cl = Put(@, c, [p |-> p, done |-> TRUE, res |-> IF p.rop = "update" THEN "ok" ELSE "err"])],
                     [lab EXCEPT !.res = "done"], << >>, cmd)
             ELSE LET x == Activate(w, p.q, s0)
                  IN Go([After([x.W EXCEPT !.ex = x.ex], x.s) EXCEPT
                          !.cl = Put(@, c, [p |-> p, done |-> FALSE, res |-> ""])], lab, x.s.ev, cmd)
        ELSE LET s == DoRequest(s0, p)
             IN Go([After(w, s) EXCEPT !.cl = Put(@, c, [p |-> p, done |-> TRUE, res |-> s.res])],
                   lab, s.ev, cmd)
PollCall(c) ==
  /\ c \in DOMAIN w.cl
  /\ LET x == w.cl[c]
         lab == [x.p EXCEPT !.op = "poll", !.c = c]
         cmd == "p:" \o c
     IN IF x.done
        THEN Go([w EXCEPT !.cl = Drop(@, c)], [lab EXCEPT !.rop = "", !.res = x.res], << >>, cmd)
        ELSE LET s == DoRequest(Prog(w, NoFault, -1), x.p)
             IN Go([After(w, s) EXCEPT !.cl = Put(@, c, [p |-> x.p, done |-> TRUE, res |-> s.res])],
                   [lab EXCEPT !.rop = "", !.res = "pending"], s.ev, cmd)

Advance(ms, pl) ==
  LET W == [w EXCEPT !.now = @ + ms]
      qs == {q \in Queues : W.nxt[q] >= 0 /\ W.nxt[q] <= W.now}
      a == PollAll([s |-> Prog(W, pl.f, pl.cr), ex |-> W.ex], qs, W)
      W1 == [W EXCEPT !.nxt = [q \in Queues |-> IF q \in qs THEN W.now + W.cfg[q].tick ELSE W.nxt[q]]]
  IN Fin(W1, a, [NoLab EXCEPT !.op = "adv", !.ms = ms, !.n = 1], pl.t \o "a" \o ToString(ms), pl)

EndEvs(j, id, out) ==
  IF out = "panic" THEN << [BodyEv("end", j, id) EXCEPT !.v = j.v, !.out = out] >>
  ELSE << [BodyEv("end", j, id) EXCEPT !.v = j.v, !.out = out], BodyEv("post", j, id) >>
Done(id, out, pl) ==
  /\ id \in DOMAIN w.ex /\ w.ex[id].ph = "body"
  /\ LET j == w.ex[id].rec
         lab == [NoLab EXCEPT !.op = "done", !.rop = "done", !.id = id, !.out = out]
         cmd == pl.t \o "d:" \o id \o ":" \o out
         held == w.ha /\ NP > 0 /\ out \notin {"panic", "panicpost"} /\ ~Bug("noafter")
         s0 == Prog(w, pl.f, pl.cr)
     IN IF held
        THEN /\ (pl.t # "" => Walking)
             /\ Go([w EXCEPT !.ex = Put(@, id, [rec |-> j, ph |-> "af", p |-> 0, out |-> out])],
                   [lab EXCEPT !.res = "ok"], EndEvs(j, id, out) \o <<Hook("af", 0, id)>>,
                   cmd)
        ELSE LET hooks == IF out \in {"panic", "panicpost"} \/ Bug("noafter") THEN << >> ELSE Hooks("af", "afx", 0, id)
                 s == DoRecord([s0 EXCEPT !.ev = EndEvs(j, id, out) \o hooks], id, j, out)
             IN Fin(w, [s |-> [s EXCEPT !.res = "ok"], ex |-> Drop(w.ex, id)], lab, cmd, pl)

(* held hooks *)
Hold(b, a) == Go([w EXCEPT !.hb = b, !.ha = a], [NoLab EXCEPT !.op = "hold", !.res = "ok"], << >>,
                 "h:" \o (IF b THEN "1" ELSE "0") \o (IF a THEN "1" ELSE "0"))
ReleaseB(id) ==
  /\ id \in DOMAIN w.ex /\ w.ex[id].ph = "bf"
  /\ LET x == w.ex[id]
         more == x.p + 1 < NP /\ w.hb
         ev == <<Hook("bfx", x.p, id)>> \o
               (IF more THEN <<Hook("bf", x.p + 1, id)>> ELSE Hooks("bf", "bfx", x.p + 1, id) \o StartEvs(x.rec, id))
     IN Go([w EXCEPT !.ex = Put(@, id, IF more THEN [x EXCEPT !.p = @ + 1] ELSE [x EXCEPT !.ph = "body", !.p = 0])],
           [NoLab EXCEPT !.op = "relb", !.id = id, !.res = "ok"], ev, "rb:" \o id)
ReleaseA(id) ==
  /\ id \in DOMAIN w.ex /\ w.ex[id].ph = "af"
  /\ LET x == w.ex[id]
         lab == [NoLab EXCEPT !.op = "rela", !.id = id, !.res = "ok"]
         s == DoRecord([Prog(w, NoFault, -1) EXCEPT !.ev = <<Hook("afx", x.p, id)>> \o Hooks("af", "afx", x.p + 1, id)],
                       id, x.rec, x.out)
     IN IF x.p + 1 < NP /\ w.ha
        THEN Go([w EXCEPT !.ex = Put(@, id, [x EXCEPT !.p = @ + 1])], lab,
                <<Hook("afx", x.p, id), Hook("af", x.p + 1, id)>>, "ra:" \o id)
        ELSE Go([After(w, s) EXCEPT !.ex = Drop(@, id)], lab, s.ev, "ra:" \o id)

(***************************************************************************)
(* Commands: the choices of the environment                                *)
(***************************************************************************)
C0 == [t |-> "", i |-> 0, id |-> "", out |-> "", c |-> "", ms |-> 0, b |-> FALSE, a |-> FALSE,
       pl |-> [f |-> NoFault, cr |-> -1, t |-> ""]]
ReqCmds  == {[C0 EXCEPT !.t = "m", !.i = i, !.pl = pl] : i \in 1 .. Len(Menu), pl \in Plans}
AdvCmds  == {[C0 EXCEPT !.t = "a", !.ms = ms, !.pl = pl] : ms \in {x \in Advs : w.now + x <= Scope.maxnow}, pl \in Plans}
DoneCmds == {[C0 EXCEPT !.t = "d", !.id = id, !.out = out] :
               id \in {x \in DOMAIN w.ex : w.ex[x].ph = "body"}, out \in Outs}
CallCmds == {[C0 EXCEPT !.t = "b", !.c = c, !.i = i] :
               c \in Clients \ DOMAIN w.cl, i \in {x \in 1 .. Len(Menu) : Menu[x].rop # "cap"}}
            \cup {[C0 EXCEPT !.t = "p", !.c = c] : c \in DOMAIN w.cl}
HookCmds == {[C0 EXCEPT !.t = "rb", !.id = id] : id \in {x \in DOMAIN w.ex : w.ex[x].ph = "bf"}}
            \cup {[C0 EXCEPT !.t = "ra", !.id = id] : id \in {x \in DOMAIN w.ex : w.ex[x].ph = "af"}}
HoldCmds == IF Holds /\ hist = << >>
            THEN {[C0 EXCEPT !.t = "h", !.b = x[1], !.a = x[2]] : x \in {<<TRUE, FALSE>>, <<FALSE, TRUE>>, <<TRUE, TRUE>>}}
            ELSE {}

Exec(c) ==
  CASE c.t = "m"  -> Request(c.i, c.pl)
    [] c.t = "a"  -> Advance(c.ms, c.pl)
    [] c.t = "d"  -> Done(c.id, c.out, c.pl)
    [] c.t = "b"  -> BeginCall(c.c, c.i)
    [] c.t = "p"  -> PollCall(c.c)
    [] c.t = "rb" -> ReleaseB(c.id)
    [] c.t = "ra" -> ReleaseA(c.id)
    [] OTHER      -> Hold(c.b, c.a)

Init0 ==
  /\ si \in 1 .. Len(Scopes)
  /\ w = World0
  /\ obs = Observe(World0, [NoLab EXCEPT !.op = "init"], << >>)
  /\ g = InitG(NP, Scope.own)
  /\ viol = {}
  /\ hist = << >>

Running == Len(hist) < Scope.depth /\ viol = {}

(* every choice *)
Init == Init0 /\ rng = <<0, 0>>
Next == /\ Running
        /\ \E c \in ReqCmds \cup AdvCmds \cup DoneCmds \cup CallCmds \cup HookCmds \cup HoldCmds : Exec(c)
        /\ UNCHANGED <<si, rng>>
Spec == Init /\ [][Next]_vars

(* pseudo-random walks: one choice per step, reproducible from the scope's seed *)
Rand == (rng[1] * 7 + rng[2]) % 30000
NextRng == <<(171 * rng[1]) % 30269, (172 * rng[2]) % 30307>>
Pick(S) == LET q == SetToSeq(S) IN q[(Rand % Len(q)) + 1]
WalkInit == Init0 /\ rng \in {<<Scope.seed + 17 * k, Scope.seed + 31 * k>> : k \in 1 .. Scope.walks}
WalkChoice ==
  LET x == (rng[2] * 3 + rng[1]) % 100
      busy == DoneCmds \cup HookCmds
      cal == CallCmds
  IN IF HoldCmds # {} THEN HoldCmds
     ELSE IF busy # {} /\ x < Scope.wdone THEN busy
     ELSE IF cal # {} /\ x < Scope.wdone + Scope.wcall THEN cal
     ELSE IF AdvCmds # {} /\ x < Scope.wdone + Scope.wcall + Scope.wadv THEN AdvCmds
     ELSE ReqCmds
WalkNext == /\ Running
            /\ Exec(Pick(WalkChoice))
            /\ rng' = NextRng
            /\ UNCHANGED si
WalkSpec == WalkInit /\ [][WalkNext]_vars

(***************************************************************************)
(* What is checked: the kernel has no objection to any step.               *)
(***************************************************************************)
Safe == viol = {}

(* states that differ only in their history are one *)
Rank(R) == [id \in DOMAIN R |-> IF R[id] < 0 THEN -1 ELSE Cardinality({x \in DOMAIN R : R[x] >= 0 /\ R[x] < R[id]})]
View == <<si, w, [f \in DOMAIN g \ {"k", "R"} |-> g[f]], Rank(g.R), viol>>
WalkView == <<si, rng, Len(hist)>>
=============================================================================
