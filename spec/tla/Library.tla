------------------------------- MODULE Library -------------------------------
(* The design of libgrpp's shared state: one lock, one flag, tables built by *)
(* initialization and read by every computation, arguments shared by the     *)
(* threads.  Variant = "none" is the design and "freeall" another correct    *)
(* one; the others are designs that must be rejected (they show that the     *)
(* properties are not vacuous).                                              *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Threads, MaxOps, Parts, Reads, Variant, StartUp, Kinds
VARIABLES lock, flag, part, builds, scratch, arg,
          pc, step, left, ok, qry,     \* per thread
          up, op, seen, known,         \* as in LibraryAbs
          last                         \* last step: <<thread, event>>, for replay
Variants == {"none", "flagfirst", "nolock", "nocheck", "scratch", "borrow", "freeall", "stale", "keeplock"}
none == "none"
vars == <<lock, flag, part, builds, scratch, arg, pc, step, left, ok, qry, up, op, seen, known, last>>
Abs == INSTANCE LibraryAbs
Ops == Abs!Ops
Init == /\ lock = none /\ flag = StartUp /\ part = [p \in 1..Parts |-> IF StartUp THEN 2 ELSE 0]
        /\ builds = IF StartUp THEN 1 ELSE 0
        /\ scratch = none /\ arg = 0
        /\ pc = [t \in Threads |-> "idle"] /\ step = [t \in Threads |-> 0]
        /\ left = [t \in Threads |-> MaxOps] /\ ok = [t \in Threads |-> TRUE]
        /\ qry = [t \in Threads |-> FALSE]
        /\ up = StartUp /\ known = StartUp
        /\ op = [t \in Threads |-> "idle"] /\ seen = [t \in Threads |-> {}]
        /\ last = <<none, "start">>
Goto(t, l) == pc' = [pc EXCEPT ![t] = l]
shared == <<lock, flag, part, builds, scratch, arg>>
Did(t, e) == last' = <<t, e>>

Call(t, o) == /\ left[t] > 0 /\ Abs!ACall(t, o)
              /\ left' = [left EXCEPT ![t] = @ - 1]
              /\ ok' = [ok EXCEPT ![t] = TRUE]
              /\ step' = [step EXCEPT ![t] = 0]
              /\ Goto(t, CASE o = "isinit" -> "query" [] o = "comp" -> "compute"
                           [] o \in {"init", "finalize"} -> IF Variant = "nolock" THEN "locked" ELSE "wait")
              /\ Did(t, "call " \o o) /\ UNCHANGED <<shared, qry>>
Acquire(t) == /\ pc[t] = "wait" /\ lock = none
              /\ lock' = t /\ Goto(t, "locked") /\ Did(t, "acq")
              /\ UNCHANGED <<flag, part, builds, scratch, arg, step, left, ok, qry, up, op, seen, known>>
(* the critical section of initialization and finalization: tests the flag *)
Test(t) == /\ pc[t] = "locked"
           /\ IF op[t] = "init"
                THEN IF ~flag \/ Variant = "nocheck" THEN Goto(t, IF Variant = "flagfirst" THEN "setflag" ELSE "build") ELSE Goto(t, "unlock")
                ELSE IF flag THEN Goto(t, "clear") ELSE Goto(t, "unlock")
           /\ Did(t, "test")
           /\ UNCHANGED <<shared, step, left, ok, qry, up, op, seen, known>>
(* tables are rewritten part by part: 0 nothing, 1 being written, 2 ready *)
Build(t) == /\ pc[t] = "build"
            /\ LET p == (step[t] \div 2) + 1 IN
               /\ part' = [part EXCEPT ![p] = IF Variant = "stale" /\ p = 1 /\ scratch # none THEN @ ELSE IF step[t] % 2 = 0 THEN 1 ELSE 2]
               /\ step' = [step EXCEPT ![t] = @ + 1]
               /\ builds' = IF step[t] = 0 THEN builds + 1 ELSE builds
               /\ Goto(t, IF step[t] + 1 = 2 * Parts THEN (IF Variant = "flagfirst" THEN "unlock" ELSE "setflag") ELSE "build")
            /\ Did(t, "build") /\ UNCHANGED <<lock, flag, scratch, arg, left, ok, qry, up, op, seen, known>>
SetFlag(t) == /\ pc[t] = "setflag"
              /\ flag' = TRUE
              /\ IF up THEN UNCHANGED <<up, op, seen, known>> ELSE Abs!AUp(t)
              /\ Goto(t, IF Variant = "flagfirst" THEN "build" ELSE "unlock") /\ Did(t, "up")
              /\ UNCHANGED <<lock, part, builds, scratch, arg, step, left, ok, qry>>
Clear(t) == /\ pc[t] = "clear"
            /\ flag' = FALSE
            /\ part' = IF Variant \in {"freeall", "stale"} THEN [p \in 1..Parts |-> 0] ELSE part
            /\ builds' = 0
            /\ IF up THEN Abs!ADown(t) ELSE UNCHANGED <<up, op, seen, known>>
            /\ Goto(t, "unlock") /\ Did(t, "down")
            /\ scratch' = IF Variant = "stale" THEN "made" ELSE scratch
            /\ UNCHANGED <<lock, arg, step, left, ok, qry>>
Unlock(t) == /\ pc[t] = "unlock"
             /\ lock' = IF Variant \in {"nolock", "keeplock"} THEN lock ELSE none
             /\ Goto(t, "return") /\ Did(t, "rel")
             /\ UNCHANGED <<flag, part, builds, scratch, arg, step, left, ok, qry, up, op, seen, known>>
Query(t) == /\ pc[t] = "query"
            /\ qry' = [qry EXCEPT ![t] = flag] /\ Goto(t, "return") /\ Did(t, "query")
            /\ UNCHANGED <<shared, step, left, ok, up, op, seen, known>>
(* a computation reads tables and arguments; the rejected designs use a      *)
(* shared scratch area or change an argument for the time of the call        *)
Compute(t) ==
  /\ pc[t] = "compute"
  /\ LET s == step[t] IN
     /\ step' = [step EXCEPT ![t] = s + 1]
     /\ scratch' = IF Variant = "scratch" /\ s = 0 THEN t ELSE scratch
     /\ arg' = IF Variant = "borrow" THEN (IF s = 0 THEN arg + 1 ELSE IF s = Reads - 1 THEN arg - 1 ELSE arg) ELSE arg
     /\ ok' = [ok EXCEPT ![t] = @ /\ part[(s % Parts) + 1] = 2
                                  /\ (Variant = "scratch" /\ s > 0 => scratch = t)
                                  /\ (IF Variant = "borrow" /\ s > 0 THEN arg = 1 ELSE arg = 0)]
     /\ Goto(t, IF s + 1 = Reads THEN "return" ELSE "compute")
  /\ Did(t, "read") /\ UNCHANGED <<lock, flag, part, builds, left, qry, up, op, seen, known>>
Val(t) == CASE op[t] = "init" -> TRUE [] op[t] = "finalize" -> FALSE
            [] op[t] = "isinit" -> qry[t] [] OTHER -> ok[t]
Return(t) == /\ pc[t] = "return"
             /\ known' = (known \/ (op[t] \in {"init", "isinit"} /\ Val(t) /\ up))
             /\ op' = [op EXCEPT ![t] = "idle"] /\ seen' = [seen EXCEPT ![t] = {}] /\ up' = up
             /\ Goto(t, "idle") /\ Did(t, "ret")
             /\ UNCHANGED <<shared, step, left, ok, qry>>
Step(t) == Acquire(t) \/ Test(t) \/ Build(t) \/ SetFlag(t) \/ Clear(t) \/ Unlock(t) \/ Query(t) \/ Compute(t) \/ Return(t)
Next == \E t \in Threads : Step(t) \/ \E o \in Kinds : Call(t, o)
Fair == \A t \in Threads : SF_vars(Acquire(t)) /\ WF_vars(Step(t))
Spec == Init /\ [][Next]_vars /\ Fair
-----------------------------------------------------------------------------
TypeOK == /\ Abs!ATypeOK /\ lock \in Threads \cup {none} /\ flag \in BOOLEAN
          /\ part \in [1..Parts -> 0..2] /\ builds \in 0..(MaxOps * Cardinality(Threads))
          /\ pc \in [Threads -> {"idle", "wait", "locked", "build", "setflag", "clear", "unlock", "query", "compute", "return"}]
Holds(t) == pc[t] \in {"locked", "build", "setflag", "clear", "unlock"}
MutualExclusion == Cardinality({t \in Threads : Holds(t)}) <= 1
LockIsHeld == \A t \in Threads : Holds(t) => lock = t
FlagIsUp == flag = up
ReadyWhenUp == (up /\ lock = none) => \A p \in 1..Parts : part[p] = 2
ReadyOnReturn == \A t \in Threads : pc[t] = "return" /\ op[t] = "init" => TRUE \in seen[t]
SetupOnce == builds <= 1
(* nobody writes a table while it may be read *)
NoRace == \A t \in Threads : pc[t] = "build" => \A u \in Threads : pc[u] # "compute"
Serial == \A t \in Threads : ok[t]
ArgsFixed == arg = 0
CompOnlyUp == Abs!CompOnlyUp
Safety == /\ TypeOK /\ MutualExclusion /\ FlagIsUp /\ ReadyWhenUp /\ ReadyOnReturn /\ SetupOnce /\ NoRace /\ Serial /\ ArgsFixed /\ CompOnlyUp
Refines == [][Abs!ANext]_<<up, op, seen, known>>
(* every call returns *)
Returns == \A t \in Threads : pc[t] # "idle" ~> pc[t] = "idle"
Done == \A t \in Threads : left[t] = 0 /\ pc[t] = "idle"
noLast == <<lock, flag, part, builds, scratch, arg, pc, step, left, ok, qry, up, op, seen, known>>
Stopped == \A t \in Threads : pc[t] = "idle"
=============================================================================
