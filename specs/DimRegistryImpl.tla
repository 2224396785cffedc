-------------------------- MODULE DimRegistryImpl --------------------------
(* The two-phase protocol of Dim::Dim(label): search under a shared lock,
   release it, then insert under an exclusive lock.  RECHECK says whether the
   search is repeated under the exclusive lock.  TLC shows that the protocol
   refines DimRegistry with RECHECK and finds the lost-interning race without.
   Every workload (a sequence of operations per thread) is an initial state. *)
EXTENDS Integers, Sequences, FiniteSets, TraceIO
CONSTANTS Threads, Labels, MaxOps, RECHECK

Ops == [op : {"intern"}, label : Labels] \cup [op : {"name"}, label : Labels]
VARIABLES work, pc, k, ids, readers, writer, result
vars == <<work, pc, k, ids, readers, writer, result>>
IdSet == 0..(Cardinality(Threads) * MaxOps)
Abs == INSTANCE DimRegistry WITH Labels <- Labels, Ids <- IdSet

Workloads == [Threads -> UNION {[1..n -> Ops] : n \in 1..MaxOps}]
\* at least two threads; symmetric copies are kept, schedules are explored anyway
Init == /\ work \in Workloads
        /\ pc = [t \in Threads |-> "start"]
        /\ k = [t \in Threads |-> 1]
        /\ ids = <<>> /\ readers = {} /\ writer = {}
        /\ result = [t \in Threads |-> <<>>]

Cur(t) == work[t][k[t]]
Done(t) == k[t] > Len(work[t])
Finish(t, r) == /\ result' = [result EXCEPT ![t] = Append(@, r)]
                /\ k' = [k EXCEPT ![t] = @ + 1]
                /\ pc' = [pc EXCEPT ![t] = "start"]
RdLock(t) == /\ ~Done(t) /\ pc[t] = "start" /\ writer = {}
             /\ readers' = readers \cup {t} /\ pc' = [pc EXCEPT ![t] = "search"]
             /\ UNCHANGED <<work, k, ids, writer, result>>
\* search under the shared lock; a hit returns
SearchHit(t) == /\ pc[t] = "search" /\ Cur(t).label \in DOMAIN ids
                /\ readers' = readers \ {t}
                /\ Finish(t, [label |-> Cur(t).label, id |-> ids[Cur(t).label]])
                /\ UNCHANGED <<work, ids, writer>>
SearchMiss(t) == /\ pc[t] = "search" /\ Cur(t).label \notin DOMAIN ids
                 /\ readers' = readers \ {t}
                 /\ pc' = [pc EXCEPT ![t] = "wantwrite"]
                 /\ UNCHANGED <<work, k, ids, writer, result>>
WrLock(t) == /\ pc[t] = "wantwrite" /\ writer = {} /\ readers = {}
             /\ writer' = {t} /\ pc' = [pc EXCEPT ![t] = "insert"]
             /\ UNCHANGED <<work, k, ids, readers, result>>
Insert(t) == /\ pc[t] = "insert"
             /\ LET lab == Cur(t).label
                    i == IF RECHECK /\ lab \in DOMAIN ids THEN ids[lab]
                         ELSE Cardinality(DOMAIN ids)
                IN /\ ids' = [x \in DOMAIN ids \cup {lab} |-> IF x = lab THEN i ELSE ids[x]]
                   /\ Finish(t, [label |-> lab, id |-> i])
             /\ writer' = {} /\ UNCHANGED <<work, readers>>
Next == \E t \in Threads : RdLock(t) \/ SearchHit(t) \/ SearchMiss(t) \/ WrLock(t) \/ Insert(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Refines == Abs!Spec
AllResults == UNION {{result[t][i] : i \in DOMAIN result[t]} : t \in Threads}
(* equal labels <=> equal ids, over everything any thread was ever given *)
Interned == \A a, b \in AllResults : (a.label = b.label) <=> (a.id = b.id)
Exclusion == Cardinality(writer) <= 1 /\ (writer # {} => readers = {})
NoDeadlock == (\A t \in Threads : Done(t)) \/ ENABLED Next
Progress == <>(\A t \in Threads : Done(t))
(* generator: one JSON line per workload *)
GenInit == Init /\ Emit(work)
GenNext == FALSE /\ UNCHANGED vars
=============================================================================
