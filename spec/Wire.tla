------------------------------- MODULE Wire -------------------------------
(***************************************************************************)
(* The Art-Net wire format as go-artnet promises it: packet layouts, which *)
(* byte strings are well-formed packets (Accept), what their fields are    *)
(* (Fields), and what bytes a packet marshals to (Encode).                 *)
(*                                                                         *)
(* A packet value is [type |-> name, f |-> [field name -> sequence of      *)
(* numbers]]; scalars are sequences of length 1.  Byte strings are         *)
(* sequences of 0..255, so byte offset k of Art-Net is index k+1.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

ArtNetID == <<65, 114, 116, 45, 78, 101, 116, 0>>
ArtNetPort == 6454
ProtVersion == 14

\* name, byte offset, bytes per element, number of elements; "" = reserved
L(n, o, w, c) == [name |-> n, off |-> o, width |-> w, count |-> c]

Header == << L("ID", 0, 1, 8), L("OpCode", 8, 2, 1), L("Version", 10, 1, 2) >>

Types == { "ArtPollPacket", "ArtPollReplyPacket", "ArtDiagDataPacket", "ArtCommandPacket",
           "ArtDMXPacket", "ArtNzsPacket", "ArtSyncPacket", "ArtAddressPacket",
           "ArtTimeCodePacket", "ArtTriggerPacket", "ArtIPProgPacket", "ArtIPProgReplyPacket" }

OpOf == [ ArtPollPacket |-> 8192,        ArtPollReplyPacket |-> 8448,
          ArtDiagDataPacket |-> 8960,    ArtCommandPacket |-> 9216,
          ArtDMXPacket |-> 20480,        ArtNzsPacket |-> 20736,
          ArtSyncPacket |-> 20992,       ArtAddressPacket |-> 24576,
          ArtTimeCodePacket |-> 38656,   ArtTriggerPacket |-> 39168,
          ArtIPProgPacket |-> 63488,     ArtIPProgReplyPacket |-> 63744 ]

Layout == [
  ArtPollPacket |-> Header \o << L("TalkToMe", 12, 1, 1), L("Priority", 13, 1, 1) >>,
  ArtPollReplyPacket |-> <<
     L("ID", 0, 1, 8), L("OpCode", 8, 2, 1), L("IPAddress", 10, 1, 4), L("Port", 14, 2, 1),
     L("VersionInfo", 16, 2, 1), L("NetSwitch", 18, 1, 1), L("SubSwitch", 19, 1, 1),
     L("Oem", 20, 2, 1), L("UBEAVersion", 22, 1, 1), L("Status1", 23, 1, 1),
     L("ESTAmanufacturer", 24, 1, 2), L("ShortName", 26, 1, 18), L("LongName", 44, 1, 64),
     L("NodeReport", 108, 1, 64), L("NumPorts", 172, 2, 1), L("PortTypes", 174, 1, 4),
     L("GoodInput", 178, 1, 4), L("GoodOutput", 182, 1, 4), L("SwIn", 186, 1, 4),
     L("SwOut", 190, 1, 4), L("SwVideo", 194, 1, 1), L("SwMacro", 195, 1, 1),
     L("SwRemote", 196, 1, 1), L("", 197, 1, 3), L("Style", 200, 1, 1),
     L("Macaddress", 201, 1, 6), L("BindIP", 207, 1, 4), L("BindIndex", 211, 1, 1),
     L("Status2", 212, 1, 1), L("", 213, 1, 26) >>,
  ArtDiagDataPacket |-> Header \o << L("", 12, 1, 1), L("Priority", 13, 1, 1), L("", 14, 1, 2),
     L("Length", 16, 2, 1), L("Data", 18, 1, 512) >>,
  ArtCommandPacket |-> Header \o << L("ESTAmanufacturer", 12, 1, 2), L("Length", 14, 2, 1),
     L("Data", 16, 1, 512) >>,
  ArtDMXPacket |-> Header \o << L("Sequence", 12, 1, 1), L("Physical", 13, 1, 1),
     L("SubUni", 14, 1, 1), L("Net", 15, 1, 1), L("Length", 16, 2, 1), L("Data", 18, 1, 512) >>,
  ArtNzsPacket |-> Header \o << L("Sequence", 12, 1, 1), L("StartCode", 13, 1, 1),
     L("SubUni", 14, 1, 1), L("Net", 15, 1, 1), L("Length", 16, 2, 1), L("Data", 18, 1, 512) >>,
  ArtSyncPacket |-> Header \o << L("", 12, 1, 2) >>,
  ArtAddressPacket |-> Header \o << L("NetSwitch", 12, 1, 1), L("BindIndex", 13, 1, 1),
     L("ShortName", 14, 1, 18), L("LongName", 32, 1, 64), L("SwIn", 96, 1, 4),
     L("SwOut", 100, 1, 4), L("SubSwitch", 104, 1, 1), L("SwVideo", 105, 1, 1),
     L("Command", 106, 1, 1) >>,
  ArtTimeCodePacket |-> Header \o << L("", 12, 1, 2), L("Frames", 14, 1, 1),
     L("Seconds", 15, 1, 1), L("Minutes", 16, 1, 1), L("Hours", 17, 1, 1), L("Type", 18, 1, 1) >>,
  ArtTriggerPacket |-> Header \o << L("", 12, 1, 2), L("Oem", 14, 2, 1), L("Key", 16, 1, 1),
     L("SubKey", 17, 1, 1), L("Data", 18, 1, 512) >>,
  ArtIPProgPacket |-> Header \o << L("", 12, 1, 2), L("Command", 14, 1, 1), L("", 15, 1, 1),
     L("ProgIP", 16, 1, 4), L("ProgSubNet", 20, 1, 4), L("ProgPort", 24, 1, 2), L("", 26, 1, 8) >>,
  ArtIPProgReplyPacket |-> Header \o << L("", 12, 1, 4), L("ProgIP", 16, 1, 4),
     L("ProgSubNet", 20, 1, 4), L("ProgPort", 24, 1, 2), L("Status", 26, 1, 1), L("", 27, 1, 7) >>
]

ItemSize(x) == x.width * x.count
SizeOf == [ ty \in Types |-> LET ly == Layout[ty] IN ly[Len(ly)].off + ItemSize(ly[Len(ly)]) ]

\* The tables are gap-free and consistent.
ASSUME DOMAIN Layout = Types /\ DOMAIN OpOf = Types
ASSUME \A ty \in Types : LET ly == Layout[ty] IN
          /\ ly[1].off = 0
          /\ \A i \in 1..(Len(ly) - 1) : ly[i + 1].off = ly[i].off + ItemSize(ly[i])
ASSUME Cardinality({ OpOf[ty] : ty \in Types }) = Cardinality(Types)

ImplOps == { OpOf[ty] : ty \in Types }
TypeOfOp(o) == CHOOSE ty \in Types : OpOf[ty] = o
DefinedStyles == 0..6

FieldNames(ty) == { Layout[ty][i].name : i \in 1..Len(Layout[ty]) } \ {""}
Item(ty, n) == Layout[ty][CHOOSE i \in 1..Len(Layout[ty]) : Layout[ty][i].name = n]

\* little endian 16 bit: the opcode everywhere, the port of ArtPollReply
LittleEndian(n) == n \in {"OpCode", "Port"}

BE(b, o) == b[o + 1] * 256 + b[o + 2]
LE(b, o) == b[o + 1] + b[o + 2] * 256

------------------------------------------------------------------------------
(* Which byte strings are accepted.  b holds the bytes (a prefix of the      *)
(* datagram that covers the fields inspected), n is the datagram's length.   *)

AcceptHead(b, n) ==
  /\ n >= 12
  /\ \A i \in 1..8 : b[i] = ArtNetID[i]
  /\ LE(b, 8) \in ImplOps
  /\ LE(b, 8) # OpOf.ArtPollReplyPacket => b[12] >= ProtVersion

DMXLen(b) == BE(b, 16)

AcceptBody(ty, b, n) ==
  CASE ty = "ArtDMXPacket" ->
         /\ n >= 18
         /\ DMXLen(b) \in 2..512 /\ DMXLen(b) % 2 = 0
         /\ n >= 18 + DMXLen(b)
    [] ty = "ArtPollReplyPacket" ->
         /\ n >= SizeOf[ty]
         /\ LE(b, 14) = ArtNetPort \/ BE(b, 14) = ArtNetPort
         /\ b[201] \in DefinedStyles
    [] ty = "ArtCommandPacket" ->
         /\ n >= SizeOf[ty]
         /\ b[13] = 255 /\ b[14] = 255
    [] OTHER -> n >= SizeOf[ty]

AcceptN(b, n) == AcceptHead(b, n) /\ AcceptBody(TypeOfOp(LE(b, 8)), b, n)
Accept(b) == AcceptN(b, Len(b))
AcceptAs(ty, b) == Accept(b) /\ LE(b, 8) = OpOf[ty]

(* Field values of an accepted byte string.                                  *)
Field(ty, n, b) ==
  LET x == Item(ty, n) IN
  CASE n = "OpCode" -> << OpOf[ty] >>
    [] n = "Port" /\ ty = "ArtPollReplyPacket" -> << ArtNetPort >>
    [] ty = "ArtDMXPacket" /\ n = "Data" ->
         [ i \in 1..512 |-> IF i <= DMXLen(b) THEN b[18 + i] ELSE 0 ]
    [] x.width = 2 -> << BE(b, x.off) >>
    [] OTHER -> SubSeq(b, x.off + 1, x.off + x.count)

Fields(ty, b) == [ n \in FieldNames(ty) |-> Field(ty, n, b) ]
TypeOf(b) == TypeOfOp(LE(b, 8))

------------------------------------------------------------------------------
(* What a packet with field values f marshals to.                            *)

Forced(ty, n, v) ==
  CASE n = "ID" -> ArtNetID
    [] n = "OpCode" -> << OpOf[ty] >>
    [] n = "Version" -> << 0, ProtVersion >>
    [] n = "Port" -> << ArtNetPort >>
    [] ty = "ArtDMXPacket" /\ n = "Length" -> << 512 >>
    [] ty = "ArtCommandPacket" /\ n = "ESTAmanufacturer" -> << 255, 255 >>
    [] OTHER -> v

Zeros(k) == [ i \in 1..k |-> 0 ]

ItemBytes(ty, f, x) ==
  IF x.name = "" THEN Zeros(x.count)
  ELSE LET v == Forced(ty, x.name, f[x.name]) IN
       IF x.width = 1 THEN v
       ELSE IF LittleEndian(x.name) THEN << v[1] % 256, v[1] \div 256 >>
       ELSE << v[1] \div 256, v[1] % 256 >>

RECURSIVE EncFrom(_, _, _)
EncFrom(ty, f, i) ==
  IF i > Len(Layout[ty]) THEN << >>
  ELSE ItemBytes(ty, f, Layout[ty][i]) \o EncFrom(ty, f, i + 1)

Encode(ty, f) == EncFrom(ty, f, 1)

(* Field values that parsing the marshalled packet must give back.           *)
Canonical(ty, f) == [ n \in FieldNames(ty) |-> Forced(ty, n, f[n]) ]

(* A fresh packet: every field zero.                                         *)
ZeroPacket(ty) == [ n \in FieldNames(ty) |-> Zeros(Item(ty, n).count) ]
=============================================================================
