----------------------------- MODULE Announce -----------------------------
(***************************************************************************)
(* The two directions of an announcement: the ArtPollReply a node builds   *)
(* from its configuration, and the configuration a controller builds from  *)
(* a received ArtPollReply.  Strings are sequences of character codes.     *)
(*                                                                         *)
(* A configuration is a record with the fields of NodeConfig; addresses    *)
(* are numbers Net * 256 + SubUni; ports are [addr, type, status].         *)
(***************************************************************************)
EXTENDS Wire

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

\* cut or zero-pad a sequence to k elements
Fit(s, k) == [ i \in 1..k |-> IF i <= Len(s) THEN s[i] ELSE 0 ]

\* a string ends at its first zero
CString(s) ==
  LET z == { i \in 1..Len(s) : s[i] = 0 } IN
  IF z = {} THEN s ELSE SubSeq(s, 1, (CHOOSE i \in z : \A j \in z : i <= j) - 1)

\* ---- port types ---------------------------------------------------------
Bit(v, k) == (v \div (2 ^ k)) % 2 = 1
IsOutput(pt) == Bit(pt, 7)
IsInput(pt) == Bit(pt, 6)
Protocol(pt) == pt % 64
DefinedProtocols == 0..5

StartableProtocols(c) ==
  \A i \in 1..Min(Len(c.inputs), Len(c.outputs)) :
     Protocol(c.inputs[i].type) = Protocol(c.outputs[i].type)

\* the configurations Start accepts (ports of defined protocols)
Startable(c) == Len(c.inputs) <= 4 /\ Len(c.outputs) <= 4 /\ StartableProtocols(c)

NumPorts(c) == Max(Len(c.inputs), Len(c.outputs))

PortTypeAt(c, i) ==
  (IF i <= Len(c.outputs) THEN 128 ELSE 0) + (IF i <= Len(c.inputs) THEN 64 ELSE 0)
  + (IF i <= Len(c.outputs) THEN Protocol(c.outputs[i].type)
     ELSE IF i <= Len(c.inputs) THEN Protocol(c.inputs[i].type) ELSE 0)

NetOf(a) == a \div 256
SubOf(a) == (a % 256) \div 16
UniOf(a) == a % 16

FromConfig(c) ==
  [ n \in FieldNames("ArtPollReplyPacket") |->
    CASE n = "ID" -> ArtNetID
      [] n = "OpCode" -> << OpOf.ArtPollReplyPacket >>
      [] n = "IPAddress" -> Fit(c.ip, 4)
      [] n = "Port" -> << ArtNetPort >>
      [] n = "VersionInfo" -> << c.version >>
      [] n = "NetSwitch" -> << NetOf(c.base) >>
      [] n = "SubSwitch" -> << SubOf(c.base) >>
      [] n = "Oem" -> << c.oem >>
      [] n = "UBEAVersion" -> << c.bios >>
      [] n = "Status1" -> << c.status1 >>
      [] n = "ESTAmanufacturer" -> Fit(c.manufacturer, 2)
      [] n = "ShortName" -> Fit(c.name, 18)
      [] n = "LongName" -> Fit(c.description, 64)
      [] n = "NodeReport" -> Fit(c.report, 64)
      [] n = "NumPorts" -> << NumPorts(c) >>
      [] n = "PortTypes" -> [ i \in 1..4 |-> PortTypeAt(c, i) ]
      [] n = "GoodInput" -> [ i \in 1..4 |-> IF i <= Len(c.inputs) THEN c.inputs[i].status ELSE 0 ]
      [] n = "GoodOutput" -> [ i \in 1..4 |-> IF i <= Len(c.outputs) THEN c.outputs[i].status ELSE 0 ]
      [] n = "SwIn" -> [ i \in 1..4 |-> IF i <= Len(c.inputs) THEN UniOf(c.inputs[i].addr) ELSE 0 ]
      [] n = "SwOut" -> [ i \in 1..4 |-> IF i <= Len(c.outputs) THEN UniOf(c.outputs[i].addr) ELSE 0 ]
      [] n = "SwVideo" -> << 0 >>
      [] n = "SwMacro" -> << 0 >>
      [] n = "SwRemote" -> << 0 >>
      [] n = "Style" -> << c.style >>
      [] n = "Macaddress" -> Fit(c.mac, 6)
      [] n = "BindIP" -> Fit(c.bindip, 4)
      [] n = "BindIndex" -> << c.bindindex >>
      [] n = "Status2" -> << c.status2 >> ]

\* the datagram a node with configuration c answers a poll with
ReplyBytes(c) == Encode("ArtPollReplyPacket", FromConfig(c))

\* the ports of direction d ("Out"/"In") that an ArtPollReply lists, in order
RECURSIVE PortsFrom(_, _, _)
PortsFrom(f, d, i) ==
  IF i > Min(f.NumPorts[1], 4) THEN << >>
  ELSE LET pt == f.PortTypes[i]
           yes == IF d = "Out" THEN IsOutput(pt) ELSE IsInput(pt)
           sw == IF d = "Out" THEN f.SwOut[i] ELSE f.SwIn[i]
           good == IF d = "Out" THEN f.GoodOutput[i] ELSE f.GoodInput[i]
       IN (IF yes THEN << [ addr |-> f.NetSwitch[1] * 256 + (f.SubSwitch[1] % 16) * 16 + (sw % 16),
                            type |-> pt, status |-> good ] >> ELSE << >>)
          \o PortsFrom(f, d, i + 1)

ToConfig(f) ==
  [ oem |-> f.Oem[1], version |-> f.VersionInfo[1], bios |-> f.UBEAVersion[1],
    manufacturer |-> CString(f.ESTAmanufacturer), style |-> f.Style[1],
    name |-> CString(f.ShortName), description |-> CString(f.LongName),
    report |-> f.NodeReport, mac |-> f.Macaddress, ip |-> f.IPAddress,
    bindip |-> f.BindIP, bindindex |-> f.BindIndex[1], port |-> f.Port[1],
    status1 |-> f.Status1[1], status2 |-> f.Status2[1],
    base |-> f.NetSwitch[1] * 256 + (f.SubSwitch[1] % 16) * 16,
    inputs |-> PortsFrom(f, "In", 1), outputs |-> PortsFrom(f, "Out", 1) ]

\* addresses a configuration occupies
OutAddrs(c) == { c.outputs[i].addr : i \in 1..Len(c.outputs) }
InAddrs(c) == { c.inputs[i].addr : i \in 1..Len(c.inputs) }

(* C09: what must survive the way through the wire, field by field.          *)
PortsSame(ps, qs) ==
  /\ Len(ps) = Len(qs)
  /\ \A i \in 1..Len(ps) : /\ Protocol(ps[i].type) = Protocol(qs[i].type)
                           /\ ps[i].status = qs[i].status
                           /\ ps[i].addr = qs[i].addr

InBase(c) == \A p \in { c.inputs[i] : i \in 1..Len(c.inputs) } \cup
                      { c.outputs[i] : i \in 1..Len(c.outputs) } :
                p.addr \div 16 = c.base \div 16

Preserved(c, r) ==
  /\ r.oem = c.oem /\ r.version = c.version /\ r.bios = c.bios
  /\ r.manufacturer = CString(Fit(c.manufacturer, 2))
  /\ r.style = c.style
  /\ r.name = c.name /\ r.description = c.description
  /\ r.report = Fit(c.report, 64)
  /\ r.mac = Fit(c.mac, 6) /\ r.ip = Fit(c.ip, 4) /\ r.bindip = Fit(c.bindip, 4)
  /\ r.bindindex = c.bindindex
  /\ r.status1 = c.status1 /\ r.status2 = c.status2
  /\ r.base \div 16 = c.base \div 16
  /\ PortsSame(c.inputs, r.inputs) /\ PortsSame(c.outputs, r.outputs)
=============================================================================
