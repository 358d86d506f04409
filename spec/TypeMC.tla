------------------------------- MODULE TypeMC -------------------------------
(* When a definition of an exploration of type systems is tried.             *)
EXTENDS TypeSys
En(C, s, e) == Range(e.g.t) \subseteq Types(s) /\ (e.g.open = 1 => ~s.com)
Kept(C, s, t) == s = t
=============================================================================
