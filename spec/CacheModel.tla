------------------------------- MODULE CacheModel -------------------------------
(***************************************************************************)
(* The protocol of a memoizing store shared by processes: a call reads the *)
(* store, computes on a miss, stores the result, and returns it.  Any      *)
(* process can crash at any point, a computation can raise, and entries    *)
(* can be evicted at any time (also between two reads of one call).        *)
(* ReadTwice is the protocol that asks for membership first and reads the  *)
(* entry later; it is not safe under eviction.                             *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Procs, Calls, ReadTwice
VARIABLES pc, call, store, ret
vars == <<pc, call, store, ret>>
F(c) == c                                  \* the value of the plain function
None == 0
Init == pc = [p \in Procs |-> "idle"] /\ call = [p \in Procs |-> None] /\ store = {} /\ ret = [p \in Procs |-> <<"none", None>>]
Go(p, l) == pc' = [pc EXCEPT ![p] = l]
Start(p) == pc[p] = "idle" /\ \E c \in Calls : call' = [call EXCEPT ![p] = c] /\ Go(p, "look") /\ ret' = [ret EXCEPT ![p] = <<"none", None>>] /\ UNCHANGED store
Value(p, v) == ret' = [ret EXCEPT ![p] = <<"value", v>>]
Look(p) == pc[p] = "look" /\ UNCHANGED <<store, call>> /\
           IF call[p] \notin store THEN Go(p, "compute") /\ UNCHANGED ret
           ELSE IF ReadTwice THEN Go(p, "read") /\ UNCHANGED ret ELSE Go(p, "idle") /\ Value(p, call[p])
Read(p) == pc[p] = "read" /\ UNCHANGED <<store, call>> /\ Go(p, "idle") /\
           IF call[p] \in store THEN Value(p, call[p]) ELSE ret' = [ret EXCEPT ![p] = <<"error", None>>]
Compute(p) == pc[p] = "compute" /\ UNCHANGED <<store, call, ret>> /\ Go(p, "store")
Raise(p) == pc[p] = "compute" /\ UNCHANGED <<store, call>> /\ Go(p, "idle") /\ ret' = [ret EXCEPT ![p] = <<"raised", None>>]
Store(p) == pc[p] = "store" /\ store' = store \cup {call[p]} /\ UNCHANGED call /\ Go(p, "idle") /\ Value(p, F(call[p]))
Crash(p) == pc[p] # "dead" /\ Go(p, "dead") /\ UNCHANGED <<store, call, ret>>
Restart(p) == pc[p] = "dead" /\ Go(p, "idle") /\ ret' = [ret EXCEPT ![p] = <<"none", None>>] /\ call' = [call EXCEPT ![p] = None] /\ UNCHANGED store
Evict == \E c \in store : store' = store \ {c} /\ UNCHANGED <<pc, call, ret>>
Next == Evict \/ \E p \in Procs : Start(p) \/ Look(p) \/ Read(p) \/ Compute(p) \/ Raise(p) \/ Store(p) \/ Crash(p) \/ Restart(p)
Fair == \A p \in Procs : WF_vars(Look(p)) /\ WF_vars(Read(p)) /\ WF_vars(Compute(p) \/ Raise(p)) /\ WF_vars(Store(p))
Spec == Init /\ [][Next]_vars /\ Fair
\* whatever is returned is what the plain function returns; nothing but the function itself raises
Transparent == \A p \in Procs : ret[p][1] # "error" /\ (ret[p][1] = "value" => ret[p][2] = F(call[p]))
StoreSound == store \subseteq Calls
\* every call ends
Ends == \A p \in Procs : (pc[p] # "idle") ~> (pc[p] \in {"idle", "dead"})
===============================================================================
