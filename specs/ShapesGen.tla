----------------------------- MODULE ShapesGen ------------------------------
EXTENDS Shapes
CONSTANTS L, N
VARIABLES s, prog
GInit == s = <<>> /\ prog = <<>>
Apply(r, o) == /\ s' = IF r.ok THEN r.v ELSE s
               /\ prog' = Append(prog, o)
GNext == \E x \in L, n \in N \cup {-1} :
  \/ Apply(AddOuter(s, x, n), [op |-> "add", x |-> x, n |-> n])
  \/ Apply(AddInner(s, x, n), [op |-> "addInner", x |-> x, n |-> n])
  \/ Apply(Resize(s, x, n), [op |-> "resize", x |-> x, n |-> n])
  \/ Apply(SetSize(s, x, n), [op |-> "set", x |-> x, n |-> n])
  \/ n = 0 /\ Apply(Erase(s, x), [op |-> "erase", x |-> x])
  \/ n = 0 /\ \E y \in L : Apply(ReplaceKey(s, x, y), [op |-> "replace", x |-> x, y |-> y])
  \/ n = 0 /\ s' = <<>> /\ prog' = Append(prog, [op |-> "clear"])
View == s
EmitProg == Emit(prog')
=============================================================================
