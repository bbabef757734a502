------------------------------- MODULE GenPix -------------------------------
(* Every sensor and field mode of the given grids. *)
EXTENDS PixMetric, Sequences, TLC, Json
GenInit == Init /\ pt = <<0, 0>>
GenSpec == GenInit /\ [][FALSE]_vars
Emit == PrintT("GEN " \o ToJson(s))
=============================================================================
