--------------------------- MODULE OrderedDictGen ---------------------------
(* Emits one shortest program for every transition of OrderedDict. *)
EXTENDS OrderedDict
VARIABLE prog
GInit == Init /\ prog = <<>>
Log(r) == prog' = Append(prog, r)
GNext == \/ \E k \in Keys, v \in Vals : Insert(k, v) /\ Log([op |-> "insert", k |-> k, v |-> v])
         \/ \E k \in Keys : \/ EraseOk(k) /\ Log([op |-> "erase", k |-> k])
                            \/ EraseOk(k) /\ Log([op |-> "extract", k |-> k])
                            \/ EraseMissing(k) /\ Log([op |-> "erase", k |-> k])
                            \/ Find(k) /\ Log([op |-> "find", k |-> k])
         \/ Clear /\ Log([op |-> "clear"])
         \/ Begin /\ Log([op |-> "begin"])
         \/ it.on /\ (\A kd \in Kinds : it.pos[kd] <= Len(d)) /\ Advance(Kinds) /\ Log([op |-> "inc"])
View == <<d, it>>
EmitProg == Emit(prog')
=============================================================================
