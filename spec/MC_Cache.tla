------------------------------ MODULE MC_Cache ------------------------------
(* Two processes, two segments, entries of two pieces, any damage anywhere.  *)
EXTENDS Cache
MCKey(s) == s
ASSUME KeysApart
=============================================================================
