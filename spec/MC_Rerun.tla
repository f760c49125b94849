---- MODULE MC_Rerun ----
EXTENDS Rerun
====
