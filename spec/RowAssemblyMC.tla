---- MODULE RowAssemblyMC ----
EXTENDS RowAssembly
LensA == <<2, 1, 2>>
LensB == <<1, 0, 2, 1>>
LensC == <<1, 2, 1, 2>>
====
