---------------------------- MODULE LibraryTrace ----------------------------
(* Checks traces recorded from the real library (harness/conc.c) against     *)
(* LibraryAbs, and orders their memory accesses: every access to memory that *)
(* is not the thread's own is an event, and two accesses to one location of  *)
(* which one is a write must be ordered by the library's own synchronization *)
(* (locks, atomic operations) or by the obligations of the user (LibraryAbs).*)
(* A computation writes no argument at all, and writes library data or       *)
(* memory of another thread only inside a critical section.                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
(* a trace: [up |-> BOOLEAN, ev |-> << <<thread, kind, x, y>> >>]             *)
(*   call o, ret o v, up b, acq l, rel l, at1/at2/at3 (load, store, both) x   *)
(*   (relaxed) or s (ordering), gr gw ar aw fr fw: read or write of a library *)
(*   global, an argument, memory of another thread                            *)
N == 4
Threads == 0..(N-1)
VARIABLES n, i, up, op, seen, known, cl, lk, lo, kn, dn, W, R, bad
Abs == INSTANCE LibraryAbs
tvars == <<n, i, up, op, seen, known, cl, lk, lo, kn, dn, W, R, bad>>
Zero == [t \in Threads |-> 0]
Join(a, b) == [t \in Threads |-> IF a[t] > b[t] THEN a[t] ELSE b[t]]
Get(f, x) == IF x \in DOMAIN f THEN f[x] ELSE Zero
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
TInit == /\ n \in 1..Len(Traces) /\ i = 1
         /\ up = Traces[n].up /\ known = Traces[n].up
         /\ op = [t \in Threads |-> "idle"] /\ seen = [t \in Threads |-> {}]
         /\ cl = [t \in Threads |-> [Zero EXCEPT ![t] = 1]]
         /\ lk = <<>> /\ lo = <<>> /\ kn = Zero /\ dn = Zero /\ W = <<>> /\ R = <<>> /\ bad = ""
Ev == Traces[n].ev[i]
Tick(c, t) == [c EXCEPT ![t][t] = @ + 1]
sync == <<lk, lo, kn, dn, W, R>>
Leq(a, b) == \A t \in Threads : a[t] <= b[t]
(* accesses of a location: latest ones of each thread, plain and atomic apart *)
Access(t, w, at, l) ==
  LET k == <<IF at THEN "a" ELSE "p", l>>
      Wr == IF at THEN Get(W, <<"p", l>>) ELSE Join(Get(W, <<"p", l>>), Get(W, <<"a", l>>))
      Rr == IF at THEN Get(R, <<"p", l>>) ELSE Join(Get(R, <<"p", l>>), Get(R, <<"a", l>>)) IN
  /\ W' = IF w THEN Put(W, k, [Get(W, k) EXCEPT ![t] = cl[t][t]]) ELSE W
  /\ R' = IF w THEN R ELSE Put(R, k, [Get(R, k) EXCEPT ![t] = cl[t][t]])
  /\ bad' = IF ~Leq(Wr, cl[t]) THEN "access unordered with a write"
            ELSE IF w /\ ~Leq(Rr, cl[t]) THEN "write unordered with a read" ELSE bad
Do(e) ==
  LET t == e[1] k == e[2] IN
  CASE k = "call" -> /\ Abs!ACall(t, e[3])
                     /\ cl' = [cl EXCEPT ![t] = IF e[3] = "comp" THEN Join(@, kn) ELSE IF e[3] = "finalize" THEN Join(@, dn) ELSE @]
                     /\ UNCHANGED <<sync, bad>>
    [] k = "ret" -> /\ op[t] = e[3] /\ Abs!ARet(t, e[4])
                    (* the first to know tells the others *)
                    /\ kn' = IF e[3] \in {"init", "isinit"} /\ e[4] /\ ~known THEN Join(kn, cl[t]) ELSE kn
                    /\ dn' = IF e[3] = "comp" THEN Join(dn, cl[t]) ELSE dn
                    /\ cl' = Tick(cl, t)
                    /\ UNCHANGED <<lk, lo, W, R, bad>>
    [] k = "up" -> /\ IF e[3] THEN Abs!AUp(t) ELSE Abs!ADown(t)
                   /\ UNCHANGED <<cl, sync, bad>>
    [] k = "acq" -> /\ Get(lo, e[3]) = Zero
                    /\ lo' = Put(lo, e[3], [Zero EXCEPT ![t] = 1])
                    /\ cl' = [cl EXCEPT ![t] = Join(@, Get(lk, <<"l", e[3]>>))]
                    /\ UNCHANGED <<up, op, seen, known, lk, kn, dn, W, R, bad>>
    [] k = "rel" -> /\ Get(lo, e[3])[t] = 1
                    /\ lo' = Put(lo, e[3], Zero)
                    /\ lk' = Put(lk, <<"l", e[3]>>, cl[t]) /\ cl' = Tick(cl, t)
                    /\ UNCHANGED <<up, op, seen, known, kn, dn, W, R, bad>>
    [] k \in {"at1s", "at2s", "at3s"} ->
         LET a == <<"a", e[3]>>
             c == IF k = "at2s" THEN cl[t] ELSE Join(cl[t], Get(lk, a)) IN
         /\ lk' = IF k = "at1s" THEN lk ELSE Put(lk, a, Join(c, Get(lk, a)))
         /\ cl' = IF k = "at1s" THEN [cl EXCEPT ![t] = c] ELSE Tick([cl EXCEPT ![t] = c], t)
         /\ Access(t, k # "at1s", TRUE, e[3])
         /\ UNCHANGED <<up, op, seen, known, lo, kn, dn>>
    [] k \in {"at1x", "at2x", "at3x"} ->
         /\ Access(t, k # "at1x", TRUE, e[3])
         /\ UNCHANGED <<up, op, seen, known, cl, lk, lo, kn, dn>>
    [] k \in {"gr", "gw", "ar", "aw", "fr", "fw"} ->
         /\ k = "aw" => op[t] # "comp"
         /\ k \in {"gw", "fw"} /\ op[t] = "comp" => \E l \in DOMAIN lo : lo[l][t] = 1
         /\ Access(t, k \in {"gw", "aw", "fw"}, FALSE, e[3])
         /\ UNCHANGED <<up, op, seen, known, cl, lk, lo, kn, dn>>
TNext == \/ /\ i <= Len(Traces[n].ev) /\ bad = "" /\ Do(Ev) /\ i' = i + 1 /\ n' = n
         \/ /\ i > Len(Traces[n].ev) /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
RaceFree == bad = ""
AbsOK == Abs!ATypeOK /\ Abs!CompOnlyUp
(* a state without successor (deadlock): the trace has an event the          *)
(* specification does not allow                                              *)
=============================================================================
