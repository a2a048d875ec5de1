------------------------------ MODULE WireMC ------------------------------
(***************************************************************************)
(* The life of a packet: built with some field values, marshalled, sent,   *)
(* parsed, marshalled again; on the way the datagram may be truncated,     *)
(* extended or one of its bytes overwritten.  Field values are drawn from  *)
(* patterns that make every field (and every byte of it) distinguishable.  *)
(***************************************************************************)
EXTENDS Wire

CONSTANTS Patterns, BadBytes

Top(w) == IF w = 1 THEN 255 ELSE 65535
Value(ty, n, pat) ==
  LET x == Item(ty, n) IN
  [ i \in 1..x.count |->
     CASE pat = "zero" -> 0
       [] pat = "ones" -> Top(x.width)
       [] pat = "count" -> ((x.off + i * 7) * (IF x.width = 1 THEN 1 ELSE 251)) % (Top(x.width) + 1)
       [] OTHER -> IF n = pat THEN Top(x.width) ELSE 0 ]

\* a defined style, so that the packet parses
Fixed(ty, n, v) == IF ty = "ArtPollReplyPacket" /\ n = "Style" THEN << v[1] % 7 >> ELSE v
Packet(ty, pat) == [ n \in FieldNames(ty) |-> Fixed(ty, n, Value(ty, n, pat)) ]

VARIABLES ty, in, wire, out, stage
vars == <<ty, in, wire, out, stage>>

Init == /\ ty \in Types
        /\ \E pat \in (Patterns \cup FieldNames(ty)) : in = Packet(ty, pat)
        /\ wire = << >> /\ out = << >> /\ stage = "built"

Marshal == stage = "built" /\ wire' = Encode(ty, in) /\ stage' = "sent" /\ UNCHANGED <<ty, in, out>>
Parse == /\ stage = "sent" /\ Accept(wire)
         /\ out' = Fields(TypeOf(wire), wire) /\ stage' = "parsed" /\ UNCHANGED <<ty, in, wire>>
Again == stage = "parsed" /\ wire' = Encode(ty, out) /\ stage' = "again" /\ UNCHANGED <<ty, in, out>>
Cut == stage = "sent" /\ \E k \in {0, 7, 11, 12, 13, 18, SizeOf[ty] - 1} :
         k < SizeOf[ty] /\ wire' = SubSeq(wire, 1, k) /\ stage' = "cut" /\ UNCHANGED <<ty, in, out>>
Pad == stage = "sent" /\ wire' = wire \o <<1, 2, 3>> /\ stage' = "padded" /\ UNCHANGED <<ty, in, out>>
Hit == stage = "sent" /\ \E o \in BadBytes, v \in {0, 1, 13, 255} :
         /\ o < Len(wire) /\ wire[o + 1] # v
         /\ wire' = [wire EXCEPT ![o + 1] = v] /\ stage' = "hit" /\ UNCHANGED <<ty, in, out>>
Next == Marshal \/ Parse \/ Again \/ Cut \/ Pad \/ Hit
Spec == Init /\ [][Next]_vars

Sizes == stage = "sent" => Len(wire) = SizeOf[ty] /\ \A i \in 1..Len(wire) : wire[i] \in 0..255
WellFormed == stage = "sent" => Accept(wire) /\ TypeOf(wire) = ty
RoundTrip == stage = "parsed" => TypeOf(wire) = ty /\ out = Canonical(ty, in)
\* only the representation of the fixed fields may differ
Stable == stage = "again" => wire = Encode(ty, in) /\ Canonical(ty, out) = out
CutRefused == stage = "cut" => ~Accept(wire)
PadIgnored == stage = "padded" => Accept(wire) /\ Fields(ty, wire) = Canonical(ty, in)
\* a damaged head is never taken for the same packet
HitSeen == stage = "hit" /\ Accept(wire) => (wire[12] >= 14 \/ TypeOf(wire) = "ArtPollReplyPacket")
                                            /\ SubSeq(wire, 1, 8) = ArtNetID
=============================================================================
