---- MODULE PivotSearchMC ----
EXTENDS PivotSearch
Base1 == <<<<{1, 2}, 1>>>>
Base2 == <<<<{1, 3}, 1>>, <<{2, 4}, 2>>>>
Base3 == <<<<{1, 4}, 1>>, <<{2, 5}, 2>>, <<{3, 4, 5}, 3>>>>
====
