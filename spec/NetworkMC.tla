----------------------------- MODULE NetworkMC -----------------------------
(* Network.tla for TLC: node i has one of two ports.                        *)
EXTENDS Network
P2 == [ n \in Nodes |-> { {2 * n}, {2 * n + 1} } ]
P1 == [ n \in Nodes |-> { {2 * n} } ]
============================================================================
