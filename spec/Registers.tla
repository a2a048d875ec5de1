----------------------------- MODULE Registers -----------------------------
(***************************************************************************)
(* The Art-Net status words as registers of 8 bits with flags and          *)
(* enumerated fields, and the tables of code names.                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Flag(n, k) == [name |-> n, bit |-> k]
Enum(n, lo, w, vals) == [name |-> n, lo |-> lo, width |-> w, vals |-> vals]

Protocols == << "DMX512", "MIDI", "Avab", "Colortran CMX", "ADB 62.5", "Art-Net" >>

Flags == [
  TalkToMe |-> << Flag("ReplyOnChange", 1), Flag("Diagnostics", 2), Flag("DiagUnicast", 3), Flag("VLC", 4) >>,
  Status1 |-> << Flag("UBEA", 0), Flag("RDM", 1), Flag("BootROM", 2) >>,
  Status2 |-> << Flag("Browser", 0), Flag("DHCP", 1), Flag("DHCPCapable", 2), Flag("Port15", 3),
                 Flag("Switch", 4), Flag("Squawk", 5) >>,
  GoodInput |-> << Flag("Receive", 2), Flag("Disabled", 3), Flag("Text", 4), Flag("SIP", 5),
                   Flag("Test", 6), Flag("Data", 7) >>,
  GoodOutput |-> << Flag("ACN", 0), Flag("LTP", 1), Flag("Output", 2), Flag("Merging", 3),
                    Flag("Text", 4), Flag("SIP", 5), Flag("Test", 6), Flag("Data", 7) >>,
  PortType |-> << Flag("Input", 6), Flag("Output", 7) >>,
  SwMacro |-> << Flag("Macro1", 0), Flag("Macro2", 1), Flag("Macro3", 2), Flag("Macro4", 3),
                 Flag("Macro5", 4), Flag("Macro6", 5), Flag("Macro7", 6), Flag("Macro8", 7) >>,
  SwRemote |-> << Flag("Remote1", 0), Flag("Remote2", 1), Flag("Remote3", 2), Flag("Remote4", 3),
                  Flag("Remote5", 4), Flag("Remote6", 5), Flag("Remote7", 6), Flag("Remote8", 7) >>
]

Enums == [
  TalkToMe |-> << >>,
  Status1 |-> << Enum("PortAddr", 4, 2, << "unknown", "front", "net", "unused" >>),
                 Enum("Indicator", 6, 2, << "unknown", "locate", "mute", "normal" >>) >>,
  Status2 |-> << >>, GoodInput |-> << >>, GoodOutput |-> << >>,
  PortType |-> << Enum("Type", 0, 6, Protocols) >>,
  SwMacro |-> << >>, SwRemote |-> << >>
]

Regs == DOMAIN Flags

BitOf(v, k) == (v \div (2 ^ k)) % 2
GetFlag(v, f) == BitOf(v, f.bit) = 1
SetFlag(v, f, b) == v - BitOf(v, f.bit) * 2 ^ f.bit + (IF b THEN 2 ^ f.bit ELSE 0)

Code(v, e) == (v \div (2 ^ e.lo)) % (2 ^ e.width)
Defined(v, e) == Code(v, e) < Len(e.vals)
GetEnum(v, e) == e.vals[Code(v, e) + 1]
SetEnum(v, e, i) == v - Code(v, e) * 2 ^ e.lo + (i - 1) * 2 ^ e.lo     \* i: index into vals

\* ---- textual form -------------------------------------------------------
FlagNamed(r, n) == CHOOSE f \in { Flags[r][i] : i \in 1..Len(Flags[r]) } : f.name = n
YN(r, v, n) == IF GetFlag(v, FlagNamed(r, n)) THEN "yes" ELSE "no"
OO(r, v, n) == IF GetFlag(v, FlagNamed(r, n)) THEN "on" ELSE "off"

\* ev(i): what the getter of the i-th enumerated field returns
TextWith(r, v, ev(_)) ==
  CASE r = "TalkToMe" -> "TalkToMe: ReplyOnChange: " \o YN(r, v, "ReplyOnChange") \o ", Diagnostics: "
         \o YN(r, v, "Diagnostics") \o " (as unicast: " \o YN(r, v, "DiagUnicast") \o "), VLC: " \o YN(r, v, "VLC")
    [] r = "Status1" -> "Status1: UBEA: " \o YN(r, v, "UBEA") \o ", RDM: " \o YN(r, v, "RDM") \o ", BootRom: "
         \o YN(r, v, "BootROM") \o ", PortAddr: " \o ev(1) \o ", Indicator: " \o ev(2)
    [] r = "Status2" -> "Status2: Browser: " \o YN(r, v, "Browser") \o ", DHCP: " \o YN(r, v, "DHCP")
         \o ", DHCPCapable: " \o YN(r, v, "DHCPCapable") \o ", Port 15bit: " \o YN(r, v, "Port15")
         \o ", CanSwitch: " \o YN(r, v, "Switch") \o ", Squawking: " \o YN(r, v, "Squawk")
    [] r = "GoodInput" -> "GoodInput: ReceiveErrors: " \o YN(r, v, "Receive") \o ", Disabled: " \o YN(r, v, "Disabled")
         \o ", DMX512Text: " \o YN(r, v, "Text") \o ", DMX512SIP: " \o YN(r, v, "SIP") \o ", DMX512Test: "
         \o YN(r, v, "Test") \o ", DataReceived: " \o YN(r, v, "Data")
    [] r = "GoodOutput" -> "GoodOutput: OutputACN: " \o YN(r, v, "ACN") \o ", LTPMergeMode: " \o YN(r, v, "LTP")
         \o ", OutputShort: " \o YN(r, v, "Output") \o ", Merging: " \o YN(r, v, "Merging") \o ", DMX512Text: "
         \o YN(r, v, "Text") \o ", DMX512SIP: " \o YN(r, v, "SIP") \o ", DMX512Test: " \o YN(r, v, "Test")
         \o ", DataSending: " \o YN(r, v, "Data")
    [] r = "PortType" -> "PortType: Type: " \o ev(1) \o ", Output: " \o YN(r, v, "Output")
         \o ", Input: " \o YN(r, v, "Input")
    [] r = "SwMacro" -> "SwMacro: Macro1: " \o OO(r, v, "Macro1") \o ", Macro2: " \o OO(r, v, "Macro2") \o ", Macro3: "
         \o OO(r, v, "Macro3") \o ", Macro4: " \o OO(r, v, "Macro4") \o ", Macro5: " \o OO(r, v, "Macro5") \o ", Macro6: "
         \o OO(r, v, "Macro6") \o ", Macro7: " \o OO(r, v, "Macro7") \o ", Macro8: " \o OO(r, v, "Macro8")
    [] r = "SwRemote" -> "SwRemote: Remote1: " \o OO(r, v, "Remote1") \o ", Remote2: " \o OO(r, v, "Remote2")
         \o ", Remote3: " \o OO(r, v, "Remote3") \o ", Remote4: " \o OO(r, v, "Remote4") \o ", Remote5: "
         \o OO(r, v, "Remote5") \o ", Remote6: " \o OO(r, v, "Remote6") \o ", Remote7: " \o OO(r, v, "Remote7")
         \o ", Remote8: " \o OO(r, v, "Remote8")

Text(r, v) == LET g(i) == GetEnum(v, Enums[r][i]) IN TextWith(r, v, g)

\* ---- code tables --------------------------------------------------------
OpCodes == << <<8192, "OpPoll">>, <<8448, "OpPollReply">>, <<8960, "OpDiagData">>, <<9216, "OpCommand">>,
  <<20480, "OpOutput">>, <<20736, "OpNzs">>, <<20992, "OpSync">>, <<24576, "OpAddress">>, <<28672, "OpInput">>,
  <<32768, "OpTodRequest">>, <<33024, "OpTodData">>, <<33280, "OpTodControl">>, <<33536, "OpRdm">>,
  <<33792, "OpRdmSub">>, <<36864, "OpMedia">>, <<37120, "OpMediaPatch">>, <<37376, "OpMediaControl">>,
  <<37632, "OpMediaContrlReply">>, <<38656, "OpTimeCode">>, <<38912, "OpTimeSync">>, <<39168, "OpTrigger">>,
  <<39424, "OpDirectory">>, <<39680, "OpDirectoryReply">>, <<40976, "OpVideoSetup">>, <<40992, "OpVideoPalette">>,
  <<41024, "OpVideoData">>, <<61440, "OpMacMaster">>, <<61696, "OpMacSlave">>, <<61952, "OpFirmwareMaster">>,
  <<62208, "OpFirmwareReply">>, <<62464, "OpFileTnMaster">>, <<62720, "OpFileFnMaster">>, <<62976, "OpFileFnReply">>,
  <<63488, "OpIPProg">>, <<63744, "OpIPProgReply">> >>
Styles == << <<0, "Node">>, <<1, "Controller">>, <<2, "Media">>, <<3, "Route">>, <<4, "Backup">>, <<5, "Config">>,
  <<6, "Visual">> >>
Priorities == << <<0, "DpAll">>, <<16, "DpLow">>, <<64, "DpMed">>, <<128, "DpHigh">>, <<224, "DpCritical">>,
  <<240, "DpVolatile">> >>
Reports == << <<0, "RcDebug">>, <<1, "RcPowerOk">>, <<2, "RcPowerFail">>, <<3, "RcSocketWr1">>, <<4, "RcParseFail">>,
  <<5, "RcUDPFail">>, <<6, "RcShNameOk">>, <<7, "RcLoNameOk">>, <<8, "RcDmxError">>, <<9, "RcDmxUDPFull">>,
  <<10, "RcDmxRxFull">>, <<11, "RcSwitchErr">>, <<12, "RcConfigErr">>, <<13, "RcDmxShort">>,
  <<14, "RcFirmwareFail">>, <<15, "RcUserFail">>, <<16, "RcFactoryRes">> >>

Table(k) == CASE k = "OpCode" -> OpCodes [] k = "StyleCode" -> Styles
              [] k = "PriorityCode" -> Priorities [] k = "NodeReportCode" -> Reports
TableFun(k) == [ c \in { Table(k)[i][1] : i \in 1..Len(Table(k)) } |->
                  (CHOOSE i \in 1..Len(Table(k)) : Table(k)[i][1] = c) ]
Names(k) == { Table(k)[i][2] : i \in 1..Len(Table(k)) }

AddrInt(net, sub) == net * 256 + sub
AddrText(net, sub) == ToString(net) \o ":" \o ToString(sub \div 16) \o "." \o ToString(sub % 16)

------------------------------------------------------------------------------
(* The register machine: any sequence of setter calls on any register.       *)
VARIABLES reg, val, last     \* last: the setter just applied, for the action properties
vars == <<reg, val, last>>
None == [kind |-> "none", name |-> "", arg |-> 0]

Init == reg \in Regs /\ val = 0 /\ last = None
DoFlag == \E i \in 1..Len(Flags[reg]) : \E b \in BOOLEAN :
            /\ val' = SetFlag(val, Flags[reg][i], b)
            /\ last' = [kind |-> "flag", name |-> i, arg |-> b]
            /\ UNCHANGED reg
DoEnum == \E i \in 1..Len(Enums[reg]) : \E j \in 1..Len(Enums[reg][i].vals) :
            /\ val' = SetEnum(val, Enums[reg][i], j)
            /\ last' = [kind |-> "enum", name |-> i, arg |-> j]
            /\ UNCHANGED reg
\* a register value may come off the wire, with any bits set
DoWire == val' \in 0..255 /\ last' = None /\ UNCHANGED reg
Next == DoFlag \/ DoEnum \/ DoWire
Spec == Init /\ [][Next]_vars

TypeOK == val \in 0..255
SetGet == (last.kind = "flag" => GetFlag(val, Flags[reg][last.name]) = last.arg)
          /\ (last.kind = "enum" => /\ Defined(val, Enums[reg][last.name])
                                    /\ Code(val, Enums[reg][last.name]) = last.arg - 1)
\* a setter changes no other field
Frame == [][ LET a == last' IN a.kind # "none" =>
    /\ \A i \in 1..Len(Flags[reg]) : (a.kind # "flag" \/ a.name # i) =>
          GetFlag(val', Flags[reg][i]) = GetFlag(val, Flags[reg][i])
    /\ \A i \in 1..Len(Enums[reg]) : (a.kind # "enum" \/ a.name # i) =>
          Code(val', Enums[reg][i]) = Code(val, Enums[reg][i]) ]_vars
ViewRV == <<reg, val, last>>
\* fields of one register do not overlap
NoOverlap == \A r \in Regs :
   LET bits(i) == IF i <= Len(Flags[r]) THEN {Flags[r][i].bit}
                  ELSE LET e == Enums[r][i - Len(Flags[r])] IN e.lo..(e.lo + e.width - 1)
       n == Len(Flags[r]) + Len(Enums[r])
   IN \A i, j \in 1..n : i # j => bits(i) \cap bits(j) = {}
ASSUME NoOverlap
=============================================================================
