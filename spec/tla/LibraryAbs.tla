----------------------------- MODULE LibraryAbs -----------------------------
(* What a user of several threads may rely on.  Operations overlap; the only *)
(* shared fact is whether the library is up.  Every operation behaves as if  *)
(* it took place at one moment between its call and its return.              *)
EXTENDS Naturals, FiniteSets
CONSTANTS Threads
VARIABLES
  up,      \* the library is initialized
  op,      \* op[t]: operation thread t is in, or "idle"
  seen,    \* seen[t]: values up has had since t entered its operation
  known    \* some thread has been told, in this epoch, that the library is up
avars == <<up, op, seen, known>>
Ops == {"init", "finalize", "isinit", "comp"}
ATypeOK == /\ up \in BOOLEAN /\ known \in BOOLEAN
           /\ op \in [Threads -> Ops \cup {"idle"}]
           /\ seen \in [Threads -> SUBSET BOOLEAN]
AInit == /\ up = FALSE /\ known = FALSE
         /\ op = [t \in Threads |-> "idle"]
         /\ seen = [t \in Threads |-> {}]
(* obligations of the user: integrals are asked for only once somebody knows *)
(* the library is up, and nobody takes it down under a running call          *)
MayCall(t, o) == /\ op[t] = "idle"
                 /\ o = "comp" => known /\ up /\ \A u \in Threads : op[u] # "finalize"
                 /\ o = "finalize" => \A u \in Threads : op[u] # "comp"
ACall(t, o) == /\ MayCall(t, o)
               /\ op' = [op EXCEPT ![t] = o]
               /\ seen' = [seen EXCEPT ![t] = {up}]
               /\ known' = IF o = "finalize" THEN FALSE ELSE known
               /\ up' = up
Witness(v) == seen' = [u \in Threads |-> IF op[u] = "idle" THEN seen[u] ELSE seen[u] \cup {v}]
AUp(t) == /\ op[t] = "init" /\ ~up
          /\ up' = TRUE /\ Witness(TRUE) /\ UNCHANGED <<op, known>>
ADown(t) == /\ op[t] = "finalize" /\ up
            /\ up' = FALSE /\ known' = FALSE /\ Witness(FALSE) /\ UNCHANGED op
(* v: the value returned; for a computation, TRUE iff it is the serial value *)
ARet(t, v) == /\ op[t] # "idle"
              /\ CASE op[t] = "init" -> v /\ TRUE \in seen[t]
                   [] op[t] = "finalize" -> ~v /\ FALSE \in seen[t]
                   [] op[t] = "isinit" -> v \in seen[t]
                   [] op[t] = "comp" -> v
              /\ known' = (known \/ (op[t] \in {"init", "isinit"} /\ v /\ up))
              /\ op' = [op EXCEPT ![t] = "idle"]
              /\ seen' = [seen EXCEPT ![t] = {}]
              /\ up' = up
ANext == \E t \in Threads : \/ \E o \in Ops : ACall(t, o)
                            \/ AUp(t) \/ ADown(t)
                            \/ \E v \in BOOLEAN : ARet(t, v)
ASpec == AInit /\ [][ANext]_avars
-----------------------------------------------------------------------------
(* nobody computes while the library is down *)
CompOnlyUp == \A t \in Threads : op[t] = "comp" => up
=============================================================================
