---------------------------- MODULE GenSortGrid ----------------------------
EXTENDS SortGrid, TLC, Json
Emit == i > Len(fix) => PrintT("GEN " \o ToJson([tg |-> tg, fix |-> fix]))
=============================================================================
