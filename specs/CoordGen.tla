------------------------------ MODULE CoordGen ------------------------------
(* writes every program of CoordModel, to be run by the real code *)
EXTENDS CoordModel, TraceIO
EmitProg == Emit(P)
=============================================================================
