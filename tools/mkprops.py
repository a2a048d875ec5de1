#!/usr/bin/env python3
# Source of /verif/properties.jsonl (one record per property).
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
        "mechanism": [dict(name=n, where=w) for n, w in mech],
        "observe_at": list(observe), "hook_needed": hook}})

NT = "The repository has no test at all for controller.go, node.go, config.go or options.go; "

prop("C01", "DMX frames go to the announcing node and carry its latest frame",
 "Every ArtDmx datagram a running controller emits for a universe address is sent to UDP port 6454 of the known node that announces an output port on that address, and its 512 channels are byte for byte the frame most recently given to SendDMXToAddress for that address while that node was routed there (all zeros if there was none since the node was added). "
 "Data given for one address never appears on another address or node, data for an unknown address is dropped without effect, and nothing is sent to a node that is not currently known.",
 ["histories", "inputs", "schedules"],
 "every history of announcements, re-announcements with changed ports, expiries and SendDMXToAddress calls on any addresses, at any times",
 NT + "the guarantee spans arbitrary interleavings of discovery, expiry, address changes and writes, which no finite list of examples covers.",
 ["controller.go"],
 [("SendDMXToAddress / setDMXBuffer", "controller.go"), ("dmxUpdateLoop / dmxUpdate", "controller.go"), ("updateNode", "controller.go")],
 [("OutputAddress", "routing table universe address -> node", "controller.go Controller"), ("DMXBuffer", "per node, per address current frame", "controller.go ControlledNode")],
 ["datagrams written to the UDP socket"])

prop("C02", "New DMX frames leave within one frame interval and are kept alive",
 "While the controller runs and an output address stays routed, a frame given to SendDMXToAddress (or a newer one for that address) is transmitted no later than one frame interval (1 s / MaxFPS) after the call returns, and an address that becomes routed gets a datagram within one frame interval of the announcement being processed (or 250 ms plus one interval after its previous datagram to the same node, if that is later). "
 "An address whose frame does not change is retransmitted so that no more than 250 ms plus one frame interval pass between two datagrams for it.",
 ["histories", "configurations", "schedules"],
 "every history of calls and announcements, every MaxFPS setting, every number of routed addresses, for as long as the controller runs",
 NT + "promptness and keep-alive are statements about every instant of every run; tests sample none.",
 ["controller.go"], [("dmxUpdateLoop: Stale flag, 250 ms forced refresh", "controller.go"), ("updateNode creates the buffers", "controller.go")],
 [("Stale", "frame not yet sent", "controller.go dmxBuffer"), ("LastUpdate", "time of last datagram", "controller.go dmxBuffer")],
 ["datagram times on the UDP socket (virtual clock)"])

prop("C03", "DMX output never exceeds the configured frame rate",
 "For one node and universe address the controller never sends two ArtDmx datagrams less than one frame interval (1 s / MaxFPS) apart while the network accepts datagrams without delay, however often SendDMXToAddress is called. "
 "If SendDMXToAddress was not called for the address since its previous datagram to a node and that node was not removed meanwhile, the next one follows no earlier than 250 ms later.",
 ["histories", "configurations"],
 "every call pattern (bursts, several goroutines, identical frames) and every MaxFPS setting",
 NT + "an upper bound on a rate has to hold for every call pattern.",
 ["controller.go", "options.go"], [("ticker of dmxUpdateLoop, Stale/LastUpdate conditions", "controller.go"), ("MaxFPS", "options.go")],
 [("LastUpdate", "time of last datagram", "controller.go dmxBuffer")], ["datagram times on the UDP socket (virtual clock)"])

prop("C04", "DMX sequence numbers count 1..255 per node and are never 0",
 "The sequence field of the ArtDmx datagrams sent to one node starts at 1 when the node is added, grows by exactly one with each datagram to that node over all of its addresses, and after 255 continues with 1. "
 "The value 0 (which tells a receiver to switch resequencing off) is never sent, and re-announcements or configuration changes of the node do not restart the count.",
 ["histories"],
 "every history, in particular long ones (more than 255 datagrams) and ones with several addresses per node and several nodes",
 NT + "the wrap needs 255 datagrams to one node, and the count must survive every re-announcement.",
 ["controller.go", "packet/artdmx.go"], [("ControlledNode.Sequence in dmxUpdate", "controller.go")],
 [("Sequence", "last sequence number sent to the node", "controller.go ControlledNode")], ["sequence byte of emitted ArtDmx datagrams"])

prop("C05", "A controller knows exactly the nodes heard from recently",
 "A node appears in the controller's node list as soon as one of its announcements (ArtPollReply from a Node, or from a Controller that has at least one output port; all other styles are ignored) has been processed, exactly once per IP address, with the configuration of its latest announcement. "
 "It stays listed for as long as its announcements are no more than 7 s apart, and is removed by the first housekeeping pass (one every 3 s from Start) that finds its latest announcement more than 7 s old; a later announcement adds it again as a new node.",
 ["histories", "inputs"],
 "every history of announcements by any number of devices of every style, with arbitrary gaps, including several nodes expiring in the same pass",
 NT + "membership must be right after every history and for every subset of nodes expiring together.",
 ["controller.go"], [("updateNode", "controller.go"), ("gcNode", "controller.go"), ("pollLoop style filter", "controller.go")],
 [("Nodes", "known nodes", "controller.go Controller"), ("LastSeen", "time of latest announcement", "controller.go ControlledNode")],
 ["Controller.Nodes at quiescent points", "datagrams sent"])

prop("C06", "Routing tables mirror the latest announcements",
 "In every history in which no two nodes known at the same time announce the same address, at every quiescent point the output (input) routing table of a running controller contains exactly the output (input) port addresses of the latest announcement of each known node, each leading to that node: no address of an earlier announcement or of a removed node remains, none is missing. "
 "If nodes do collide on an address, the tables still never lead to an unknown node or to a node whose latest announcement does not list the address.",
 ["histories", "inputs"],
 "every history of announcements, port changes (added, removed, moved, swapped between nodes), expiries and restarts",
 NT + "stale or missing routes only appear after particular sequences of announcements and expiries.",
 ["controller.go", "config.go"], [("updateNode", "controller.go"), ("gcNode", "controller.go"), ("ConfigFromArtPollReply", "config.go")],
 [("OutputAddress / InputAddress", "routing tables", "controller.go Controller")],
 ["Controller.OutputAddress, Controller.InputAddress at quiescent points", "destinations of ArtDmx datagrams"])

prop("C07", "A controller polls every 3 s and announces itself with every poll",
 "From Start until Stop a controller broadcasts one ArtPoll (TalkToMe reply-on-change set, priority DpAll) immediately and then one every 3 s, each accompanied by exactly one ArtPollReply describing the controller itself. "
 "It also answers each ArtPoll of another host with exactly one such ArtPollReply, and sends no other ArtPoll or ArtPollReply, whatever announcements, DMX traffic and expiries happen meanwhile.",
 ["histories", "schedules"],
 "every history of traffic, announcements, DMX load and expiry between Start and Stop",
 NT + "periodicity has to hold under every load and over the whole run.",
 ["controller.go", "node.go"], [("pollLoop", "controller.go"), ("pollReplyLoop", "node.go")],
 [("pollTicker", "3 s poll timer", "controller.go Controller")], ["datagrams written to the UDP socket"])

prop("C08", "Each ArtPoll is answered with exactly one ArtPollReply",
 "A running node answers every well-formed ArtPoll datagram it receives from another host with exactly one ArtPollReply, sent to its broadcast address and describing the configuration it was started with, however many polls arrive together and even if the network stalls in between. "
 "It sends nothing else on its own: no reply to its own packets, to malformed datagrams or to other packet types.",
 ["inputs", "schedules", "histories"],
 "every sequence and burst of datagrams from any senders, any stall of the network, any node configuration",
 NT + "lost or duplicated replies appear only under bursts, full queues and particular interleavings.",
 ["node.go", "config.go"], [("recvLoop / handlePacketPoll / pollReplyLoop / sendLoop", "node.go"), ("ArtPollReplyFromConfig", "config.go")],
 [("pollCh, sendCh, recvCh", "bounded queues between the goroutines", "node.go Node")], ["datagrams read from and written to the UDP socket"])

prop("C09", "What a node announces is what a controller reconstructs",
 "For every configuration a node can be started with, the ArtPollReply built from it, once marshalled and parsed, gives back the same IP, bind IP and index, MAC, OEM, firmware and BIOS version, manufacturer, style, names (up to 17 and 63 ASCII characters), report codes (zero-padded to 64), both status words and the Net and Sub-Net of the base address, and the same input and output ports in the same order with the same status, universe address (for ports in the base address's Net and Sub-Net) and protocol type (for the six protocols Art-Net defines). "
 "For every received ArtPollReply the reconstructed ports are exactly those among the first min(NumPorts, 4) whose port type says output (input), at universe address Net = NetSwitch, high nibble = SubSwitch, low nibble = SwOut (SwIn).",
 ["inputs", "configurations"],
 "every startable node configuration and every ArtPollReply content",
 "No test calls ArtPollReplyFromConfig or ConfigFromArtPollReply; the space of configurations is far larger than examples can cover.",
 ["config.go", "packet/artpollreply.go"], [("ArtPollReplyFromConfig, PortTypes, NumberOfPorts", "config.go"), ("ConfigFromArtPollReply", "config.go")],
 (), ["return values", "announcements seen on the wire"])

prop("C10", "Every valid datagram reaches its registered callback exactly once",
 "For every datagram a running node receives from another host that is a well-formed packet of an implemented type, the callback registered for its opcode is invoked exactly once with a packet of that type whose fields are those of that datagram, no matter how many other datagrams are in flight or how long callbacks take; datagrams from the node's own IP, malformed ones and ones without callback invoke nothing. "
 "Callbacks can be registered, replaced and deregistered while the node is not running; such calls on a running node have no effect.",
 ["inputs", "schedules", "histories"],
 "every sequence and burst of datagrams and every sequence of registration, start and stop calls",
 NT + "lost, duplicated or corrupted deliveries (for example through a reused receive buffer) need particular bursts.",
 ["node.go"], [("recvLoop", "node.go"), ("handlePacket", "node.go"), ("RegisterCallback / DeregisterCallback", "node.go")],
 [("callbacks", "opcode -> callback", "node.go Node")], ["callback invocations"])

prop("C11", "No traffic and no I/O fault crashes or wedges a node or controller",
 "Whatever bytes arrive from the network in whatever order and number, and whichever socket reads or writes fail or stall for a while, a running node or controller neither panics nor stops working. "
 "Afterwards it still answers polls, invokes callbacks, processes announcements, polls and transmits DMX as before.",
 ["inputs", "fault_sequences", "histories"],
 "every byte string as datagram (including truncated, oversized and random packets of every type), every burst length, and every finite pattern of read errors, write errors and write stalls",
 "The tests parse a few valid packets; none sends bytes to a running node or injects an I/O fault.",
 ["node.go", "controller.go", "packet/packet.go"], [("recvLoop error handling", "node.go"), ("sendLoop error handling", "node.go"), ("packet.Unmarshal", "packet/packet.go")],
 (), ["process survival", "replies, callbacks and DMX after the disturbance"])

prop("C12", "Stop always returns, ends everything, and silences the socket",
 "Calling Stop on a running node or controller at any moment, whatever traffic is queued, in flight or stalled, returns, closes the socket and ends every goroutine the library started (other than ones inside user callbacks). "
 "After it has returned no datagram is sent any more, and SendDMXToAddress still returns instead of blocking.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of Stop with the internal goroutines, every queue fill level, every number of routed addresses and any network stall",
 NT + "deadlock and leak at shutdown depend on the interleaving and on full queues.",
 ["node.go", "controller.go"], [("Node.Stop, shutdownCh", "node.go"), ("Controller.Stop", "controller.go"), ("channel sends of all loops", "node.go, controller.go")],
 [("shutdownCh", "closed on shutdown", "node.go, controller.go")], ["return of Stop", "live goroutines", "datagrams after Stop"])

prop("C13", "Start and Stop follow a sound life cycle in any order",
 "A Start that returns an error (invalid configuration, listen address unavailable, or already running) changes nothing: a stopped node or controller stays stopped, can have its callbacks changed and can be started later, and a running one keeps working; a Start that succeeds returns nil whatever failed before. "
 "Stop on a node or controller that is not running does nothing, and one that was stopped can be started again at once and works like a freshly started one (a controller then knows no nodes or routes until they announce themselves).",
 ["histories", "fault_sequences"],
 "every finite sequence of Start, Stop, callback registration and listen failures",
 NT + "no test starts or stops anything.",
 ["node.go", "controller.go"], [("Node.Start / Stop / isShutdown", "node.go"), ("Controller.Start / Stop", "controller.go")],
 [("shutdown", "node is not running", "node.go Node"), ("shutdownErr", "error of a failed Start", "node.go Node")], ["return values", "socket state", "behaviour after the calls"])

prop("C14", "Parsing accepts exactly well-formed Art-Net packets and never panics",
 "For every byte string, parsing returns without panic, and succeeds exactly if it starts with the Art-Net ID, carries the opcode of an implemented packet type, a protocol version (low byte) of at least 14 (ArtPollReply has none), at least the length of that type, and the type's own constraints hold (ArtDmx: at least 18 bytes, length field even, 2 to 512 and covered by the data; ArtPollReply: port 6454 in either byte order and a defined style; ArtCommand: ESTA code 0xFFFF); on success the result has the type of the opcode and its fields are the bytes at the offsets Art-Net assigns, independent of any trailing bytes. "
 "The UnmarshalBinary method of each packet type accepts the same byte strings as the general parser restricted to that type, whatever the packet held before.",
 ["inputs"],
 "every byte string of every length",
 "The tests parse about fifteen fixed packets of three of the thirteen types, nearly all of them valid.",
 ["packet/packet.go", "packet/header.go", "packet/artdmx.go", "packet/artpollreply.go", "packet/artcommand.go"],
 [("Unmarshal", "packet/packet.go"), ("Header.unmarshal / validate / unmarshalPacket", "packet/header.go"), ("per type validate / UnmarshalBinary", "packet/*.go")],
 (), ["return values of packet.Unmarshal and UnmarshalBinary"])

prop("C15", "Marshalled packets have the Art-Net layout and parse back unchanged",
 "For every packet type and every assignment of its fields, MarshalBinary succeeds and yields the Art-Net ID, the opcode of that type low byte first, protocol version 14 (except ArtPollReply), and every field at its Art-Net offset and width in the right byte order, reserved bytes zero; ArtDmx is always sent with length 512, ArtCommand with ESTA code 0xFFFF, ArtPollReply with port 6454. "
 "Parsing the result (for ArtPollReply: with a defined style) succeeds and returns the same type with the same field values.",
 ["inputs"],
 "every packet type and every assignment of its fields, including packets fresh from their constructors",
 "The tests marshal a few packets of three of the thirteen types and never parse a marshalled packet.",
 ["packet/header.go", "packet/art*.go", "version/version.go"],
 [("marshalPacket / finish", "packet/header.go, packet/art*.go")], (), ["return value of MarshalBinary", "packet.Unmarshal of it"])

prop("C16", "Marshalling is repeatable and leaves the packet alone",
 "Marshalling a packet any number of times, interleaved with parsing and marshalling of other packets, yields the same bytes each time and changes neither the packet's fields nor what its opcode accessor reports. "
 "A packet obtained by parsing and marshalled again yields the same bytes as were parsed up to the packet's length (protocol version 14, ArtPollReply port low byte first, reserved bytes zero, ArtDmx extended to 512 channels).",
 ["histories", "inputs"],
 "every sequence of marshal and parse operations on packets of all types",
 "Each test packet is marshalled exactly once and then discarded.",
 ["packet/header.go", "packet/artpollreply.go"], [("marshalPacket / finish", "packet/header.go")], (), ["bytes returned by successive calls", "packet fields"])

prop("C17", "Status words and codes: setters, getters and names agree",
 "For every value of every status word (TalkToMe, Status1, Status2, GoodInput, GoodOutput, PortType, SwMacro, SwRemote), setting a flag or enumerated field to a value, true or false, makes its getter return that value, sets exactly the Art-Net bits of that field and leaves every other field as it was, in any sequence of setter calls; a value outside an enumeration has none of its names, and the textual form reports what the getters return. "
 "Opcode, style, priority and report code values have exactly the Art-Net names, only those opcodes and styles are reported valid, and universe addresses map one to one to their integer and net:sub.universe text forms.",
 ["inputs", "histories"],
 "all 256 values of every register, all setters and arguments, all sequences of setter calls; all 65536 opcodes and addresses",
 "No test reads a flag back, clears a flag or combines enumerated fields.",
 ["packet/code/*.go", "config.go"], [("With* setters and getters", "packet/code/*.go"), ("ValidOp, ValidStyle, String", "packet/code/*.go"), ("Address.String / Integer", "config.go")],
 (), ["return values"])

prop("C18", "Concurrent callers and traffic see atomic DMX updates",
 "SendDMXToAddress may be called from any number of goroutines at once while nodes announce themselves, expire and change ports and while the controller is stopped and started again: every datagram carries one whole frame that was current for its address (never a mixture of two calls, never one that had been overwritten before the datagram was prepared), and once all calls have returned the last datagrams show the frame of a call that no other completed call for that address followed. "
 "No such use is a data race or blocks a caller forever.",
 ["schedules", "histories"],
 "every interleaving of concurrent calls with discovery, expiry and transmission",
 NT + "no test runs two goroutines.",
 ["controller.go"], [("Controller.nodeLock", "controller.go"), ("ControlledNode.nodeLock", "controller.go")],
 [("DMXBuffer", "per node, per address current frame", "controller.go ControlledNode")], ["datagrams", "call and return of SendDMXToAddress", "race detector"])

prop("C19", "Start accepts exactly the port configurations that can be announced",
 "Start of a node rejects a configuration with more than four input or more than four output ports, or whose input and output port of the same index have different protocol types (of the six Art-Net defines), with an error and without opening a socket; it accepts every other port configuration. "
 "For accepted ones the announced number of ports is the larger of the two counts and each announced port type shows exactly the directions and protocol type of the ports with that index.",
 ["configurations"],
 "every number, combination and type of input and output ports",
 NT + "the number of port combinations is far beyond examples.",
 ["config.go", "node.go"], [("NodeConfig.validate", "config.go"), ("PortTypes, NumberOfPorts", "config.go"), ("Node.Start", "node.go")],
 (), ["return value of Start", "sockets opened", "announced ArtPollReply"])

prop("C20", "Address, listen and rate options take effect, bad rates are refused",
 "A node or controller binds exactly the configured listen address (port 6454 on all interfaces by default), sends all its polls and poll replies to exactly the configured broadcast address (2.255.255.255:6454 by default), and ignores traffic from its own IP only, for every combination and order of options. "
 "Every frame rate from 1 to 10^9 per second is honoured; any other value is refused with an error by its option and leaves the rate in force unchanged instead of crashing the controller.",
 ["configurations"],
 "every combination, order and value of options, applied at construction or later through SetOption before Start",
 NT + "options are not exercised by any test.",
 ["options.go", "controller.go", "node.go"], [("MaxFPS, BroadcastAddr, ListenAddress, ListenIP, Node* options", "options.go")],
 [("broadcastAddr, listenAddr, maxFPS", "settings", "controller.go, node.go")], ["socket binds", "datagram destinations", "DMX timing"])

prop("C21", "Nodes and controllers find each other and DMX gets through end to end",
 "Take any number of nodes and controllers of this library with distinct IPs and no shared universe address, on a network that delivers each datagram within a delay D (under 1 s; broadcasts to all hosts), started, stopped and restarted (nodes also with other ports) in any order. Every controller lists each node that has run for 3 s + 3 D together with it, with the configuration the node was started with and routes for its ports, lists nothing of a node that has been stopped for 10 s + D, and never lists a host that announces no ports as a controller. "
 "A frame given to a controller for an output address of a node it has had that long arrives unchanged (or a newer one does) at that node's ArtDmx callback within one frame interval plus D, and from then on the latest frame arrives again at least every 250 ms plus one interval plus D until one of the two stops; no node gets frames for addresses of another, nor a replaced frame more than D after its replacement.",
 ["histories", "schedules", "configurations"],
 "every number of hosts, every order and time of starts, stops, restarts and writes, every delivery delay and order of datagrams within D",
 NT + "it takes several running hosts, simulated time and a network to observe the end-to-end guarantee at all.",
 ["controller.go", "node.go", "config.go"],
 [("pollLoop, updateNode, gcNode", "controller.go"), ("dmxUpdateLoop", "controller.go"), ("pollReplyLoop, recvLoop, handlePacket", "node.go"), ("ArtPollReplyFromConfig / ConfigFromArtPollReply", "config.go")],
 [("Nodes, OutputAddress, InputAddress", "what a controller knows", "controller.go Controller"), ("callbacks", "what a node delivers", "node.go Node")],
 ["Controller.Nodes and routing tables", "calls of the ArtDmx callbacks of all nodes"])

with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
