-------------------------- MODULE ElementArrayGen --------------------------
EXTENDS ElementArray
VARIABLE prog
GInit == Init /\ prog = <<>>
Log(r) == prog' = Append(prog, r)
GNext == \E x, y \in Names :
  \/ \E s \in Seqs, h \in {"list", "range", "vector"} : y = x /\ Construct(x, s) /\ Log([op |-> "construct", x |-> x, s |-> s, how |-> h])
  \/ \E n \in 0..MaxLen, v \in Vals : y = x /\ Construct(x, [i \in 1..n |-> v]) /\ Log([op |-> "fill", x |-> x, n |-> n, v |-> v])
  \/ y = x /\ Default(x) /\ Log([op |-> "reset", x |-> x])
  \/ y = x /\ Default(x) /\ Log([op |-> "default", x |-> x])
  \/ Copy(x, y) /\ Log([op |-> "copy", x |-> x, y |-> y])
  \/ Copy(x, y) /\ Log([op |-> "assign", x |-> x, y |-> y])
  \/ Move(x, y) /\ Log([op |-> "move", x |-> x, y |-> y])
  \/ Move(x, y) /\ Log([op |-> "moveassign", x |-> x, y |-> y])
  \/ \E n \in 0..MaxLen : y = x /\ Resize(x, n) /\ Log([op |-> "resize", x |-> x, n |-> n])
  \* resize without initialisation, then every element is written
  \/ \E n \in 0..MaxLen : y = x /\ Construct(x, [i \in 1..n |-> 1]) /\ Log([op |-> "overwrite", x |-> x, n |-> n, v |-> 1])
  \/ \E i \in 1..MaxLen, v \in Vals : y = x /\ Write(x, i, v) /\ Log([op |-> "write", x |-> x, i |-> i, v |-> v])
View == a
EmitProg == Emit(prog')
=============================================================================
