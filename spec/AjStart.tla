------------------------------ MODULE AjStart ------------------------------
(***************************************************************************)
(* Concurrent starts of the engine.  A caller looks for the engine; if     *)
(* there is none it (perhaps in a new thread) takes the lock, looks again, *)
(* creates the engine and publishes its address.  A caller can be held     *)
(* where it creates a thread, so a step of the model goes from one such    *)
(* point to the next; schedules are printed and played against the code.   *)
(*                                                                         *)
(* Mode "trace" validates what the callers of the real code got.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Mode == IOEnv.AJ_MODE
Data == ndJsonDeserialize(IOEnv.AJ_DATA)

VARIABLES
  c,      \* which configuration (or recorded run)
  pc,     \* of each caller: "call", "spawn", "make", "done"
  got,    \* the engine each caller was given, 0 none yet
  addr,   \* the published engine, 0 none
  lock,   \* who holds the lock, 0 none
  made,   \* number of engines created
  hist
vars == <<c, pc, got, addr, lock, made, hist>>

Who == Data[c].who
N == 1 .. Len(Who)
Relook == "norelook" \notin {Data[c].bugs[i] : i \in 1 .. Len(Data[c].bugs)}
Locked == "nolock" \notin {Data[c].bugs[i] : i \in 1 .. Len(Data[c].bugs)}

ModelInit == /\ c \in 1 .. Len(Data)
             /\ pc = [i \in N |-> "call"] /\ got = [i \in N |-> 0]
             /\ addr = 0 /\ lock = 0 /\ made = 0 /\ hist = << >>

(* from the lock to the creation of the engine's thread *)
Enter(i) == IF Relook /\ addr # 0
            THEN pc' = [pc EXCEPT ![i] = "done"] /\ got' = [got EXCEPT ![i] = addr] /\ UNCHANGED <<addr, lock, made>>
            ELSE pc' = [pc EXCEPT ![i] = "make"] /\ lock' = (IF Locked THEN i ELSE 0) /\ UNCHANGED <<got, addr, made>>
Call(i) ==
  /\ pc[i] = "call"
  /\ IF addr # 0
     THEN pc' = [pc EXCEPT ![i] = "done"] /\ got' = [got EXCEPT ![i] = addr] /\ UNCHANGED <<addr, lock, made>>
     ELSE IF Who[i].ctx \in {"sys", "quicksys"}
     THEN lock = 0 /\ Enter(i)
     ELSE pc' = [pc EXCEPT ![i] = "spawn"] /\ UNCHANGED <<got, addr, lock, made>>
Spawn(i) == pc[i] = "spawn" /\ lock = 0 /\ Enter(i)
Make(i) ==
  /\ pc[i] = "make"
  /\ made' = made + 1
  /\ addr' = made'
  /\ got' = [got EXCEPT ![i] = made']
  /\ pc' = [pc EXCEPT ![i] = "done"]
  /\ lock' = 0
ModelNext == \E i \in N : /\ Call(i) \/ Spawn(i) \/ Make(i)
                          /\ hist' = Append(hist, i - 1)
                          /\ c' = c
                          /\ IF \A k \in N : pc'[k] = "done"
                             THEN PrintT("HIST " \o ToJson([c |-> c, h |-> hist'])) ELSE TRUE

OneEngine == Mode = "model" =>
  /\ made <= 1
  /\ \A i \in N : pc[i] = "done" => got[i] # 0 /\ got[i] = addr

(*-------------------------------------------------------------------------*)
(* recorded: [e, who, res, addr, look]; engines are numbered by appearance *)
StepOk(s) ==
  IF s.e = "start" THEN s.res = "ok" /\ s.addr = 0 /\ s.look = 0
  ELSE s.res = "ok" /\ s.addr = 1 /\ s.look <= 1      \* the job ran once, on one backend
TraceInit == /\ c \in 1 .. Len(Data)
             /\ pc = << >> /\ got = << >> /\ addr = 0 /\ lock = 0 /\ made = 0 /\ hist = << >>
TraceNext == /\ addr < Len(Data[c].steps)
             /\ addr' = addr + 1
             /\ LET s == Data[c].steps[addr + 1]
                IN IF StepOk(s) THEN TRUE
                   ELSE PrintT("VIOL " \o ToJson([t |-> c, l |-> addr + 1, p |-> "C17", id |-> ToString(s.who),
                          why |-> s.e \o " " \o s.res \o ": engine " \o ToString(s.addr) \o ", lookup " \o ToString(s.look)]))
             /\ UNCHANGED <<c, pc, got, lock, made, hist>>

Init == IF Mode = "model" THEN ModelInit ELSE TraceInit
Next == IF Mode = "model" THEN ModelNext ELSE TraceNext
Spec == Init /\ [][Next]_vars
=============================================================================
