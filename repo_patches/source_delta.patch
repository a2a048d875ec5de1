From 772124906f164c0f7dc8de2463dcdb43c0d0de74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:10 +0000
Subject: [PATCH 01/16] fix: marshal packets with the OpCode of their type

Only ArtPoll, ArtPollReply and ArtDMX set their OpCode when marshalling. All
other packets were sent with whatever OpCode the struct held (0 when fresh from
the constructor) and, because finish() swaps it in place, with the bytes the
wrong way round on every second call.
---
 packet/artaddress.go     | 1 +
 packet/artcommand.go     | 1 +
 packet/artdiagdata.go    | 1 +
 packet/artipprog.go      | 1 +
 packet/artipprogreply.go | 1 +
 packet/artnzs.go         | 1 +
 packet/artsync.go        | 1 +
 packet/arttimecode.go    | 1 +
 packet/arttrigger.go     | 1 +
 9 files changed, 9 insertions(+)

diff --git a/packet/artaddress.go b/packet/artaddress.go
index 7b831f9..056d3bc 100644
--- a/packet/artaddress.go
+++ b/packet/artaddress.go
@@ -99,5 +99,6 @@ func (p *ArtAddressPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtAddressPacket) finish() {
+	p.OpCode = code.OpAddress
 	p.Header.finish()
 }
diff --git a/packet/artcommand.go b/packet/artcommand.go
index 49b5816..4a69ecb 100644
--- a/packet/artcommand.go
+++ b/packet/artcommand.go
@@ -83,6 +83,7 @@ func (p *ArtCommandPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtCommandPacket) finish() {
+	p.OpCode = code.OpCommand
 	p.Header.finish()
 	p.ESTAmanufacturer = [2]byte{0xff, 0xff}
 }
diff --git a/packet/artdiagdata.go b/packet/artdiagdata.go
index 5997e43..1150bbe 100644
--- a/packet/artdiagdata.go
+++ b/packet/artdiagdata.go
@@ -70,5 +70,6 @@ func (p *ArtDiagDataPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtDiagDataPacket) finish() {
+	p.OpCode = code.OpDiagData
 	p.Header.finish()
 }
diff --git a/packet/artipprog.go b/packet/artipprog.go
index 17916e9..5701d08 100644
--- a/packet/artipprog.go
+++ b/packet/artipprog.go
@@ -78,5 +78,6 @@ func (p *ArtIPProgPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtIPProgPacket) finish() {
+	p.OpCode = code.OpIPProg
 	p.Header.finish()
 }
diff --git a/packet/artipprogreply.go b/packet/artipprogreply.go
index 7b08b8c..6fdb3c6 100644
--- a/packet/artipprogreply.go
+++ b/packet/artipprogreply.go
@@ -74,5 +74,6 @@ func (p *ArtIPProgReplyPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtIPProgReplyPacket) finish() {
+	p.OpCode = code.OpIPProgReply
 	p.Header.finish()
 }
diff --git a/packet/artnzs.go b/packet/artnzs.go
index 8a568b4..fbae5c6 100644
--- a/packet/artnzs.go
+++ b/packet/artnzs.go
@@ -78,5 +78,6 @@ func (p *ArtNzsPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtNzsPacket) finish() {
+	p.OpCode = code.OpNzs
 	p.Header.finish()
 }
diff --git a/packet/artsync.go b/packet/artsync.go
index 88ee754..ab6e4cd 100644
--- a/packet/artsync.go
+++ b/packet/artsync.go
@@ -61,5 +61,6 @@ func (p *ArtSyncPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtSyncPacket) finish() {
+	p.OpCode = code.OpSync
 	p.Header.finish()
 }
diff --git a/packet/arttimecode.go b/packet/arttimecode.go
index 57dd624..054e6a7 100644
--- a/packet/arttimecode.go
+++ b/packet/arttimecode.go
@@ -75,5 +75,6 @@ func (p *ArtTimeCodePacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtTimeCodePacket) finish() {
+	p.OpCode = code.OpTimeCode
 	p.Header.finish()
 }
diff --git a/packet/arttrigger.go b/packet/arttrigger.go
index 7c5c045..a966212 100644
--- a/packet/arttrigger.go
+++ b/packet/arttrigger.go
@@ -96,5 +96,6 @@ func (p *ArtTriggerPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtTriggerPacket) finish() {
+	p.OpCode = code.OpTrigger
 	p.Header.finish()
 }
-- 
2.43.0


From 2d5ee5a57b2d30e1415909bf1346c825a24658a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:10 +0000
Subject: [PATCH 02/16] fix: always send ArtPollReply with port 0x1936 low byte
 first

finish() swapped the Port field in place, so marshalling the same packet again
sent it high byte first, and a packet fresh from the constructor was sent with
port 0 and could not be parsed.
---
 packet/artpollreply.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packet/artpollreply.go b/packet/artpollreply.go
index 220c25e..e01ce78 100644
--- a/packet/artpollreply.go
+++ b/packet/artpollreply.go
@@ -187,5 +187,5 @@ func (p *ArtPollReplyPacket) finish() {
 	// working packet we do it here "manually"
 	p.ID = ArtNet
 	p.OpCode = code.OpCode(swapUint16(uint16(code.OpPollReply)))
-	p.Port = swapUint16(p.Port)
+	p.Port = swapUint16(ArtNetPort)
 }
-- 
2.43.0


From e0f18327cedbadcae7609b61eea74ae19b44135a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:10 +0000
Subject: [PATCH 03/16] fix: do not modify a packet when marshalling it

MarshalBinary left the OpCode (and ArtPollReply's Port) byte swapped in the
caller's packet, so GetOpCode returned a wrong code afterwards.
---
 packet/header.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packet/header.go b/packet/header.go
index 9a62655..d2192d6 100644
--- a/packet/header.go
+++ b/packet/header.go
@@ -6,6 +6,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"reflect"
 
 	"github.com/jsimonetti/go-artnet/packet/code"
 	"github.com/jsimonetti/go-artnet/version"
@@ -102,6 +103,11 @@ func (p *Header) swapOpCode() {
 }
 
 func marshalPacket(p ArtNetPacket) ([]byte, error) {
+	// finish converts the packet to its wire format in place, so work on a copy
+	c := reflect.New(reflect.TypeOf(p).Elem())
+	c.Elem().Set(reflect.ValueOf(p).Elem())
+	p = c.Interface().(ArtNetPacket)
+
 	p.finish()
 	var buf bytes.Buffer
 	if err := binary.Write(&buf, binary.BigEndian, p); err != nil {
-- 
2.43.0


From f6fe50ea58e52d029d65e965f1c444ca1591c8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:10 +0000
Subject: [PATCH 04/16] fix: check the OpCode when parsing an ArtDMX packet

ArtDMXPacket.UnmarshalBinary accepted packets of any other type, and left the
channels beyond the received length at the values of a packet parsed before.
---
 packet/artdmx.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packet/artdmx.go b/packet/artdmx.go
index 7714760..f2ea35a 100644
--- a/packet/artdmx.go
+++ b/packet/artdmx.go
@@ -84,6 +84,9 @@ func (p *ArtDMXPacket) UnmarshalBinary(b []byte) error {
 	if err := p.Header.unmarshal(b[:12]); err != nil {
 		return err
 	}
+	if p.OpCode != code.OpDMX {
+		return errInvalidOpCode
+	}
 
 	p.Sequence = b[12]
 	p.Physical = b[13]
@@ -98,6 +101,7 @@ func (p *ArtDMXPacket) UnmarshalBinary(b []byte) error {
 	if len(b) < l+18 || l < 2 || l > 512 || l%2 != 0 {
 		return errInvalidPacket
 	}
+	p.Data = [512]byte{}
 	copy(p.Data[0:l], b[18:18+l])
 
 	return nil
-- 
2.43.0


From 81543998c04f9a73b79367c24365e0185180d5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:10 +0000
Subject: [PATCH 05/16] fix: check the ID when parsing an ArtPollReply packet

---
 packet/artpollreply.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packet/artpollreply.go b/packet/artpollreply.go
index e01ce78..58bf622 100644
--- a/packet/artpollreply.go
+++ b/packet/artpollreply.go
@@ -158,6 +158,9 @@ func (p *ArtPollReplyPacket) UnmarshalBinary(b []byte) error {
 func (p *ArtPollReplyPacket) validate() error {
 	// ArtPollReply is a packer not using the standard header, so we need to do
 	// some extra things here that are normally done in the header validate
+	if p.ID != ArtNet {
+		return errInvalidPacket
+	}
 
 	// swap endianness
 	p.OpCode = code.OpCode(swapUint16(uint16(p.OpCode)))
-- 
2.43.0


From 93c27f49e54ae1d470a1adb60f8193f2222ea3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:42 +0000
Subject: [PATCH 06/16] fix: never send ArtDMX sequence number 0

The sequence number wrapped from 255 to 0, but 0 tells the receiver to disable
resequencing; the valid range is 1 to 255.
---
 controller.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/controller.go b/controller.go
index b51f94c..678f608 100644
--- a/controller.go
+++ b/controller.go
@@ -67,6 +67,10 @@ func (cn *ControlledNode) dmxUpdate(address Address) (b []byte, err error) {
 	}
 
 	cn.Sequence++
+	if cn.Sequence == 0 {
+		// 0x00 would disable resequencing at the receiver
+		cn.Sequence = 1
+	}
 	p := &packet.ArtDMXPacket{
 		Sequence: cn.Sequence,
 		SubUni:   address.SubUni,
-- 
2.43.0


From 2f7d5d022a864321946807408122d1f705c7c61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:42 +0000
Subject: [PATCH 07/16] fix: do not panic when reading from the socket fails

There is no sender address if ReadFromUDP returns an error, so comparing it
with our own address before looking at the error dereferenced a nil pointer.
---
 node.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/node.go b/node.go
index 6766063..13a4f1f 100644
--- a/node.go
+++ b/node.go
@@ -1,6 +1,7 @@
 package artnet
 
 import (
+	"errors"
 	"fmt"
 	"io"
 	"net"
@@ -218,14 +219,8 @@ func (n *Node) recvLoop() {
 				return
 			}
 
-			if n.localAddr.IP.Equal(from.IP) {
-				// this was sent by me, so we ignore it
-				//n.log.With(Fields{"src": from.String(), "bytes": num}).Debugf("ignoring received packet from self")
-				continue
-			}
-
 			if err != nil {
-				if err == io.EOF {
+				if err == io.EOF || errors.Is(err, net.ErrClosed) {
 					return
 				}
 
@@ -233,6 +228,12 @@ func (n *Node) recvLoop() {
 				continue
 			}
 
+			if n.localAddr.IP.Equal(from.IP) {
+				// this was sent by me, so we ignore it
+				//n.log.With(Fields{"src": from.String(), "bytes": num}).Debugf("ignoring received packet from self")
+				continue
+			}
+
 			n.log.With(Fields{"src": from.String(), "bytes": num}).Debugf("received packet")
 			payload := netPayload{
 				address: *from,
-- 
2.43.0


From 3da9c1887d5312862d6ae0c01db5620f1a9604fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:42 +0000
Subject: [PATCH 08/16] fix: create DMX buffers for addresses added by a node
 update

If a known node announced a new output address, the address was routed at once
but its buffer was only created on the next tick of the update loop. DMX data
sent to the address in between was rejected and lost.
---
 controller.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/controller.go b/controller.go
index 678f608..c1465a7 100644
--- a/controller.go
+++ b/controller.go
@@ -316,6 +316,9 @@ func (c *Controller) updateNode(cfg NodeConfig) error {
 			// add references to this node to the output map
 			for _, port := range c.Nodes[i].Node.OutputPorts {
 				c.OutputAddress[port.Address] = c.Nodes[i]
+				if c.Nodes[i].DMXBuffer[port.Address] == nil {
+					c.Nodes[i].DMXBuffer[port.Address] = &dmxBuffer{}
+				}
 			}
 			for _, port := range c.Nodes[i].Node.InputPorts {
 				c.InputAddress[port.Address] = c.Nodes[i]
-- 
2.43.0


From 3c08c73f780640626ae1ba9f82a758bbfa7a250c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:42 +0000
Subject: [PATCH 09/16] fix: use the configured broadcast address for the
 controller's ArtPollReply

BroadcastAddr was only applied to ArtPoll packets, the replies of the
controller's node still went to 2.255.255.255.
---
 options.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/options.go b/options.go
index decc5ab..3b5b8f6 100644
--- a/options.go
+++ b/options.go
@@ -26,7 +26,7 @@ func MaxFPS(fps int) Option {
 func BroadcastAddr(addr net.UDPAddr) Option {
 	return func(c *Controller) error {
 		c.broadcastAddr = addr
-		return nil
+		return NodeBroadcastAddress(addr)(c.cNode)
 	}
 }
 
-- 
2.43.0


From 97f98d2fb4edc736b0b4ebed7760a35e3a3a96aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:42 +0000
Subject: [PATCH 10/16] fix: reject frame rates without a valid interval,
 honour all others

MaxFPS(0) and other values outside of 1 to 10^9 crashed the update loop when it
created its ticker. The loop also took the number of frames per second for a
number of nanoseconds to wait between updates, which delayed updates for rates
above 31622.
---
 controller.go | 8 ++++----
 options.go    | 5 +++++
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/controller.go b/controller.go
index c1465a7..a0c808a 100644
--- a/controller.go
+++ b/controller.go
@@ -237,8 +237,8 @@ func (c *Controller) SendDMXToAddress(dmx [512]byte, address Address) {
 
 // dmxUpdateLoop will periodically update nodes until shutdown
 func (c *Controller) dmxUpdateLoop() {
-	fpsInterval := time.Duration(c.maxFPS)
-	ticker := time.NewTicker(time.Second / fpsInterval)
+	// the ticker limits the updates to maxFPS per second
+	ticker := time.NewTicker(time.Second / time.Duration(c.maxFPS))
 
 	forceUpdate := 250 * time.Millisecond
 
@@ -269,8 +269,8 @@ func (c *Controller) dmxUpdateLoop() {
 				if node.DMXBuffer[address] == nil {
 					node.DMXBuffer[address] = &dmxBuffer{}
 				}
-				// only update if it has been X seconds
-				if node.DMXBuffer[address].Stale && node.DMXBuffer[address].LastUpdate.Before(now.Add(-fpsInterval)) {
+				// only update if there is new data
+				if node.DMXBuffer[address].Stale {
 					err := update(node, address, now)
 					if err != nil {
 						c.log.With(Fields{"err": err, "address": address.String()}).Error("error getting buffer for address")
diff --git a/options.go b/options.go
index 3b5b8f6..e0b3105 100644
--- a/options.go
+++ b/options.go
@@ -1,7 +1,9 @@
 package artnet
 
 import (
+	"fmt"
 	"net"
+	"time"
 
 	"github.com/jsimonetti/go-artnet/packet"
 )
@@ -17,6 +19,9 @@ func (c *Controller) SetOption(option Option) error {
 // MaxFPS sets the maximum amount of updates sent out per second
 func MaxFPS(fps int) Option {
 	return func(c *Controller) error {
+		if fps < 1 || time.Duration(fps) > time.Second {
+			return fmt.Errorf("invalid MaxFPS: %d", fps)
+		}
 		c.maxFPS = fps
 		return nil
 	}
-- 
2.43.0


From 4b8ecccd9abf881f5000fa3d4aed1bb7875aa820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:26 +0000
Subject: [PATCH 11/16] fix: do not block on the internal queues after shutdown

Goroutines that were about to write to a full queue when the node was stopped
stayed blocked for ever. If this hit the DMX update loop, it held the
controller's lock and blocked every later call of SendDMXToAddress as well.
---
 controller.go | 16 ++++++++--------
 node.go       | 33 ++++++++++++++++++++++++++++-----
 2 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/controller.go b/controller.go
index a0c808a..089f2a0 100644
--- a/controller.go
+++ b/controller.go
@@ -167,22 +167,22 @@ func (c *Controller) pollLoop() {
 	}
 
 	// send ArtPollPacket
-	c.cNode.sendCh <- netPayload{
+	c.cNode.send(netPayload{
 		address: c.broadcastAddr,
 		data:    b,
-	}
-	c.cNode.pollCh <- packet.ArtPollPacket{}
+	})
+	c.cNode.poll(packet.ArtPollPacket{})
 
 	// loop until shutdown
 	for {
 		select {
 		case <-c.pollTicker.C:
 			// send ArtPollPacket
-			c.cNode.sendCh <- netPayload{
+			c.cNode.send(netPayload{
 				address: c.broadcastAddr,
 				data:    b,
-			}
-			c.cNode.pollCh <- packet.ArtPollPacket{}
+			})
+			c.cNode.poll(packet.ArtPollPacket{})
 
 		case <-c.gcTicker.C:
 			// clean up old nodes
@@ -251,10 +251,10 @@ func (c *Controller) dmxUpdateLoop() {
 		node.DMXBuffer[address].LastUpdate = now
 		node.DMXBuffer[address].Stale = false
 
-		c.cNode.sendCh <- netPayload{
+		c.cNode.send(netPayload{
 			address: node.UDPAddress,
 			data:    b,
-		}
+		})
 		return nil
 	}
 
diff --git a/node.go b/node.go
index 13a4f1f..4a93893 100644
--- a/node.go
+++ b/node.go
@@ -166,10 +166,10 @@ func (n *Node) pollReplyLoop() {
 			// reply with pollReply
 			n.log.With(nil).Debug("sending ArtPollReply")
 
-			n.sendCh <- netPayload{
+			n.send(netPayload{
 				address: n.broadcastAddr,
 				data:    me,
-			}
+			})
 
 			// TODO: if we are asked to send changes regularly, set the Ticker here
 
@@ -179,6 +179,14 @@ func (n *Node) pollReplyLoop() {
 	}
 }
 
+// send queues a payload for the sendLoop, unless the node is shut down
+func (n *Node) send(payload netPayload) {
+	select {
+	case n.sendCh <- payload:
+	case <-n.shutdownCh:
+	}
+}
+
 // sendLoop is used to send packets to the network
 func (n *Node) sendLoop() {
 	// loop until shutdown
@@ -241,7 +249,11 @@ func (n *Node) recvLoop() {
 				data:    make([]byte, num),
 			}
 			copy(payload.data, b)
-			n.recvCh <- payload
+			select {
+			case n.recvCh <- payload:
+			case <-n.shutdownCh:
+				return
+			}
 		}
 	}()
 
@@ -289,7 +301,15 @@ func (n *Node) handlePacketPoll(p packet.ArtNetPacket) {
 		return
 	}
 
-	n.pollCh <- *poll
+	n.poll(*poll)
+}
+
+// poll queues an ArtPoll for the pollReplyLoop, unless the node is shut down
+func (n *Node) poll(poll packet.ArtPollPacket) {
+	select {
+	case n.pollCh <- poll:
+	case <-n.shutdownCh:
+	}
 }
 
 func (n *Node) handlePacketPollReply(p packet.ArtNetPacket) {
@@ -301,7 +321,10 @@ func (n *Node) handlePacketPollReply(p packet.ArtNetPacket) {
 			return
 		}
 
-		n.pollReplyCh <- *pollReply
+		select {
+		case n.pollReplyCh <- *pollReply:
+		case <-n.shutdownCh:
+		}
 	}
 }
 
-- 
2.43.0


From 49d8ea269fac40c4286cdaf6d4cc1fc350021b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:26 +0000
Subject: [PATCH 12/16] fix: make Start and Stop safe in any order

- Stop panicked on a node or controller that was not running.
- Stop returned before the goroutines were gone: starting again right away let
  them run on with the new channels or crash on the old socket.
- Start on a running node replaced the channels its goroutines use before it
  failed to listen, which left the node deaf and mute.
- A failed Start left the node marked as running, so callbacks could not be
  registered any more, and made a later successful Controller.Start return the
  old error.
- A restarted controller listed the nodes of the previous run without routes.
---
 controller.go | 29 ++++++++++++++++++++---------
 node.go       | 35 +++++++++++++++++++++++++++++++++--
 2 files changed, 53 insertions(+), 11 deletions(-)

diff --git a/controller.go b/controller.go
index 089f2a0..0a72514 100644
--- a/controller.go
+++ b/controller.go
@@ -2,6 +2,7 @@ package artnet
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"net"
 	"sync"
@@ -96,6 +97,7 @@ type Controller struct {
 	broadcastAddr net.UDPAddr
 
 	shutdownCh chan struct{}
+	loops      sync.WaitGroup
 
 	maxFPS int
 	log    Logger
@@ -122,18 +124,25 @@ func NewController(name string, ip net.IP, log Logger, opts ...Option) *Controll
 
 // Start will start this controller
 func (c *Controller) Start() error {
-	c.OutputAddress = make(map[Address]*ControlledNode)
-	c.InputAddress = make(map[Address]*ControlledNode)
-	c.shutdownCh = make(chan struct{})
+	if !c.cNode.isShutdown() {
+		return errors.New("controller has already been started")
+	}
 	c.cNode.log = c.log.With(Fields{"type": "Node"})
 	c.log = c.log.With(Fields{"type": "Controller"})
 	if err := c.cNode.Start(); err != nil {
 		return fmt.Errorf("failed to start controller node: %v", err)
 	}
 
+	c.nodeLock.Lock()
+	c.Nodes = nil
+	c.OutputAddress = make(map[Address]*ControlledNode)
+	c.InputAddress = make(map[Address]*ControlledNode)
+	c.nodeLock.Unlock()
+	c.shutdownCh = make(chan struct{})
 	c.pollTicker = time.NewTicker(pollInterval)
 	c.gcTicker = time.NewTicker(pollInterval)
 
+	c.loops.Add(2)
 	go c.pollLoop()
 	go c.dmxUpdateLoop()
 	return c.cNode.shutdownErr
@@ -141,19 +150,19 @@ func (c *Controller) Start() error {
 
 // Stop will stop this controller
 func (c *Controller) Stop() {
+	if !c.cNode.stop() {
+		return
+	}
 	c.pollTicker.Stop()
 	c.gcTicker.Stop()
-	c.cNode.Stop()
-
-	select {
-	case <-c.cNode.shutdownCh:
-	}
-
 	close(c.shutdownCh)
+	c.loops.Wait()
 }
 
 // pollLoop will routinely poll for new nodes
 func (c *Controller) pollLoop() {
+	defer c.loops.Done()
+
 	artPoll := &packet.ArtPollPacket{
 		TalkToMe: new(code.TalkToMe).WithReplyOnChange(true),
 		Priority: code.DpAll,
@@ -237,6 +246,8 @@ func (c *Controller) SendDMXToAddress(dmx [512]byte, address Address) {
 
 // dmxUpdateLoop will periodically update nodes until shutdown
 func (c *Controller) dmxUpdateLoop() {
+	defer c.loops.Done()
+
 	// the ticker limits the updates to maxFPS per second
 	ticker := time.NewTicker(time.Second / time.Duration(c.maxFPS))
 
diff --git a/node.go b/node.go
index 4a93893..2d367b9 100644
--- a/node.go
+++ b/node.go
@@ -35,6 +35,9 @@ type Node struct {
 	shutdownErr  error
 	shutdownLock sync.Mutex
 
+	// loops counts the running routines of this node
+	loops sync.WaitGroup
+
 	// pollCh will receive ArtPoll packets
 	pollCh chan packet.ArtPollPacket
 	// pollCh will send ArtPollReply packets
@@ -96,15 +99,26 @@ func (n *Node) Connection() *net.UDPConn {
 
 // Stop will stop all running routines and close the network connection
 func (n *Node) Stop() {
+	n.stop()
+}
+
+// stop reports whether the node was running
+func (n *Node) stop() bool {
 	n.shutdownLock.Lock()
+	if n.shutdown {
+		n.shutdownLock.Unlock()
+		return false
+	}
 	n.shutdown = true
 	n.shutdownLock.Unlock()
 	close(n.shutdownCh)
 	if n.conn != nil {
 		if err := n.conn.Close(); err != nil {
-			n.log.Printf("failed to close read socket: %v")
+			n.log.Printf("failed to close read socket: %v", err)
 		}
 	}
+	n.loops.Wait()
+	return true
 }
 
 func (n *Node) isShutdown() bool {
@@ -115,6 +129,9 @@ func (n *Node) isShutdown() bool {
 
 // Start will start the controller
 func (n *Node) Start() error {
+	if !n.isShutdown() {
+		return errors.New("node has already been started")
+	}
 	if err := n.Config.validate(); err != nil {
 		return err
 	}
@@ -125,7 +142,7 @@ func (n *Node) Start() error {
 	n.pollCh = make(chan packet.ArtPollPacket, 10)
 	n.pollReplyCh = make(chan packet.ArtPollReplyPacket, 10)
 	n.shutdownCh = make(chan struct{})
-	n.shutdown = false
+	n.shutdownErr = nil
 
 	c, err := net.ListenPacket("udp4", n.listenAddr.String())
 	if err != nil {
@@ -135,6 +152,11 @@ func (n *Node) Start() error {
 	}
 	n.conn = c.(*net.UDPConn)
 
+	n.shutdownLock.Lock()
+	n.shutdown = false
+	n.shutdownLock.Unlock()
+
+	n.loops.Add(3)
 	go n.pollReplyLoop()
 	go n.recvLoop()
 	go n.sendLoop()
@@ -145,6 +167,8 @@ func (n *Node) Start() error {
 // pollReplyLoop loops to reply to ArtPoll packets
 // when a controller asks for continuous updates, we do that using a ticker
 func (n *Node) pollReplyLoop() {
+	defer n.loops.Done()
+
 	var timer time.Ticker
 
 	// create an ArtPollReply packet to send out in response to an ArtPoll packet
@@ -189,6 +213,8 @@ func (n *Node) send(payload netPayload) {
 
 // sendLoop is used to send packets to the network
 func (n *Node) sendLoop() {
+	defer n.loops.Done()
+
 	// loop until shutdown
 	for {
 		select {
@@ -217,9 +243,14 @@ func (n *Node) sendLoop() {
 // due to the nature of broadcasting, we see our own sent
 // packets to, but we ignore them
 func (n *Node) recvLoop() {
+	defer n.loops.Done()
+
 	// start a routine that will read data from n.conn
 	// and (if not shutdown), send to the recvCh
+	n.loops.Add(1)
 	go func() {
+		defer n.loops.Done()
+
 		b := make([]byte, 4096)
 		for {
 			num, from, err := n.conn.ReadFromUDP(b)
-- 
2.43.0


From b5495d3d6d533e3c1b59e55702423b9191419f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:11 +0000
Subject: [PATCH 13/16] fix: clear bits when registers are set to false or
 another value

---
 packet/code/goodinput.go  | 12 ++++++------
 packet/code/goodoutput.go | 16 ++++++++--------
 packet/code/porttype.go   | 18 +++++++++---------
 packet/code/status1.go    | 28 ++++++++++++++--------------
 packet/code/status2.go    | 12 ++++++------
 packet/code/swmacro.go    | 16 ++++++++--------
 packet/code/swremote.go   | 16 ++++++++--------
 packet/code/talktome.go   |  8 ++++----
 8 files changed, 63 insertions(+), 63 deletions(-)

diff --git a/packet/code/goodinput.go b/packet/code/goodinput.go
index 85af466..499cb5d 100644
--- a/packet/code/goodinput.go
+++ b/packet/code/goodinput.go
@@ -8,7 +8,7 @@ func (s GoodInput) WithReceive(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // Receive indicates if Receive errors detected
@@ -21,7 +21,7 @@ func (s GoodInput) WithDisabled(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 3)
 	}
-	return s | (0 << 3)
+	return s &^ (1 << 3)
 }
 
 // Disabled indicates Input is disabled
@@ -34,7 +34,7 @@ func (s GoodInput) WithText(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 4)
 	}
-	return s | (0 << 4)
+	return s &^ (1 << 4)
 }
 
 // Text indicates Channel includes DMX512 text packets
@@ -47,7 +47,7 @@ func (s GoodInput) WithSIP(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 5)
 	}
-	return s | (0 << 5)
+	return s &^ (1 << 5)
 }
 
 // SIP indicates Channel includes DMX512 SIP’s
@@ -60,7 +60,7 @@ func (s GoodInput) WithTest(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 6)
 	}
-	return s | (0 << 6)
+	return s &^ (1 << 6)
 }
 
 // Test indicates Channel includes DMX512 test packets
@@ -73,7 +73,7 @@ func (s GoodInput) WithData(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 7)
 	}
-	return s | (0 << 7)
+	return s &^ (1 << 7)
 }
 
 // Data indicates Data received
diff --git a/packet/code/goodoutput.go b/packet/code/goodoutput.go
index 0b7841e..da15831 100644
--- a/packet/code/goodoutput.go
+++ b/packet/code/goodoutput.go
@@ -8,7 +8,7 @@ func (s GoodOutput) WithACN(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 0)
 	}
-	return s | (0 << 0)
+	return s &^ (1 << 0)
 }
 
 // ACN indicates Output is selected to transmit sACN
@@ -21,7 +21,7 @@ func (s GoodOutput) WithLTP(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 1)
 	}
-	return s | (0 << 1)
+	return s &^ (1 << 1)
 }
 
 // LTP indicates Merge Mode is LTP
@@ -34,7 +34,7 @@ func (s GoodOutput) WithOutput(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // Output indicates DMX output short detected on power up
@@ -47,7 +47,7 @@ func (s GoodOutput) WithMerging(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 3)
 	}
-	return s | (0 << 3)
+	return s &^ (1 << 3)
 }
 
 // Merging indicates Output is merging ArtNet data
@@ -60,7 +60,7 @@ func (s GoodOutput) WithText(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 4)
 	}
-	return s | (0 << 4)
+	return s &^ (1 << 4)
 }
 
 // Text indicates Channel includes DMX512 text packets
@@ -73,7 +73,7 @@ func (s GoodOutput) WithSIP(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 5)
 	}
-	return s | (0 << 5)
+	return s &^ (1 << 5)
 }
 
 // SIP indicates Channel includes DMX512 SIP’s
@@ -86,7 +86,7 @@ func (s GoodOutput) WithTest(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 6)
 	}
-	return s | (0 << 6)
+	return s &^ (1 << 6)
 }
 
 // Test indicates Channel includes DMX512 test packets
@@ -99,7 +99,7 @@ func (s GoodOutput) WithData(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 7)
 	}
-	return s | (0 << 7)
+	return s &^ (1 << 7)
 }
 
 // Data indicates Data transmitted
diff --git a/packet/code/porttype.go b/packet/code/porttype.go
index 6b42aff..dd46295 100644
--- a/packet/code/porttype.go
+++ b/packet/code/porttype.go
@@ -10,7 +10,7 @@ func (s PortType) WithInput(enable bool) PortType {
 	if enable {
 		return s | (1 << 6)
 	}
-	return s | (0 << 6)
+	return s &^ (1 << 6)
 }
 
 // Input indicates channel can input from the Art-Net Network
@@ -23,7 +23,7 @@ func (s PortType) WithOutput(enable bool) PortType {
 	if enable {
 		return s | (1 << 7)
 	}
-	return s | (0 << 7)
+	return s &^ (1 << 7)
 }
 
 // Output indicates channel can output onto the Art-Net Network
@@ -36,17 +36,17 @@ func (s PortType) Output() bool {
 func (s PortType) WithType(v string) PortType {
 	switch v {
 	case "DMX512":
-		return s | 0x00
+		return s&^0x3f | 0x00
 	case "MIDI":
-		return s | 0x01
+		return s&^0x3f | 0x01
 	case "Avab":
-		return s | 0x02
+		return s&^0x3f | 0x02
 	case "Colortran CMX":
-		return s | 0x03
+		return s&^0x3f | 0x03
 	case "ADB 62.5":
-		return s | 0x04
+		return s&^0x3f | 0x04
 	case "Art-Net":
-		return s | 0x05
+		return s&^0x3f | 0x05
 	}
 	return s
 }
@@ -54,7 +54,7 @@ func (s PortType) WithType(v string) PortType {
 // Type returns the Port-Address Programming Authority
 // "DMX512" | "MIDI" | "Avab" | "Colortran CMX" | "ADB 62.5" | "Art-Net"
 func (s PortType) Type() string {
-	switch s & 0x1f {
+	switch s & 0x3f {
 	case 0:
 		return "DMX512"
 	case 1:
diff --git a/packet/code/status1.go b/packet/code/status1.go
index 32c08ca..64b5f01 100644
--- a/packet/code/status1.go
+++ b/packet/code/status1.go
@@ -10,7 +10,7 @@ func (s Status1) WithUBEA(enable bool) Status1 {
 	if enable {
 		return s | (1 << 0)
 	}
-	return s | (0 << 0)
+	return s &^ (1 << 0)
 }
 
 // UBEA returns the status of the bit 0
@@ -25,7 +25,7 @@ func (s Status1) WithRDM(enable bool) Status1 {
 	if enable {
 		return s | (1 << 1)
 	}
-	return s | (0 << 1)
+	return s &^ (1 << 1)
 }
 
 // RDM returns the status of the bit 1
@@ -41,7 +41,7 @@ func (s Status1) WithBootROM(enable bool) Status1 {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // BootROM returns the status of the bit 2
@@ -57,13 +57,13 @@ func (s Status1) BootROM() bool {
 func (s Status1) WithPortAddr(v string) Status1 {
 	switch v {
 	case "unknown":
-		return s | (0 << 4)
+		return s&^(3<<4) | (0 << 4)
 	case "front":
-		return s | (1 << 4)
+		return s&^(3<<4) | (1 << 4)
 	case "net":
-		return s | (2 << 4)
+		return s&^(3<<4) | (2 << 4)
 	case "unused":
-		return s | (3 << 4)
+		return s&^(3<<4) | (3 << 4)
 	}
 	return s
 }
@@ -74,7 +74,7 @@ func (s Status1) WithPortAddr(v string) Status1 {
 // "net":     All or part of Port-Address programmed by networkor Web browser.
 // "unused":  Not used.
 func (s Status1) PortAddr() string {
-	switch (s & (8 + 16)) >> 4 {
+	switch (s & (16 + 32)) >> 4 {
 	case 0:
 		return "unknown"
 	case 1:
@@ -95,13 +95,13 @@ func (s Status1) PortAddr() string {
 func (s Status1) WithIndicator(v string) Status1 {
 	switch v {
 	case "unknown":
-		return s | (0 << 6)
+		return s&^(3<<6) | (0 << 6)
 	case "locate":
-		return s | (1 << 6)
+		return s&^(3<<6) | (1 << 6)
 	case "mute":
-		return s | (2 << 6)
+		return s&^(3<<6) | (2 << 6)
 	case "normal":
-		return s | (3 << 6)
+		return s&^(3<<6) | (3 << 6)
 	}
 	return s
 }
@@ -112,13 +112,13 @@ func (s Status1) WithIndicator(v string) Status1 {
 // "mute":    Indicators in Mute Mode.
 // "normal":  Indicators in Normal Mode.
 func (s Status1) Indicator() string {
-	switch (s & (32 + 64)) >> 6 {
+	switch (s & (64 + 128)) >> 6 {
 	case 0:
 		return "unknown"
 	case 1:
 		return "locate"
 	case 2:
-		return "mutenet"
+		return "mute"
 	case 3:
 		return "normal"
 	}
diff --git a/packet/code/status2.go b/packet/code/status2.go
index 35220c5..d33a8b4 100644
--- a/packet/code/status2.go
+++ b/packet/code/status2.go
@@ -8,7 +8,7 @@ func (s Status2) WithBrowser(enable bool) Status2 {
 	if enable {
 		return s | (1 << 0)
 	}
-	return s | (0 << 0)
+	return s &^ (1 << 0)
 }
 
 // Browser indicates if product supports web browser configuration
@@ -21,7 +21,7 @@ func (s Status2) WithDHCP(enable bool) Status2 {
 	if enable {
 		return s | (1 << 1)
 	}
-	return s | (0 << 1)
+	return s &^ (1 << 1)
 }
 
 // DHCP indicates if product IP is DHCP configured
@@ -34,7 +34,7 @@ func (s Status2) WithDHCPCapable(enable bool) Status2 {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // DHCPCapable indicates if product is capable of DHCP
@@ -47,7 +47,7 @@ func (s Status2) WithPort15(enable bool) Status2 {
 	if enable {
 		return s | (1 << 3)
 	}
-	return s | (0 << 3)
+	return s &^ (1 << 3)
 }
 
 // Port15 indicates if product supports 15 bit Port-Address (Art-Net 3 or 4)
@@ -60,7 +60,7 @@ func (s Status2) WithSwitch(enable bool) Status2 {
 	if enable {
 		return s | (1 << 4)
 	}
-	return s | (0 << 4)
+	return s &^ (1 << 4)
 }
 
 // Switch indicates if product is able to switch between Art-Net and sACN
@@ -73,7 +73,7 @@ func (s Status2) WithSquawk(enable bool) Status2 {
 	if enable {
 		return s | (1 << 5)
 	}
-	return s | (0 << 5)
+	return s &^ (1 << 5)
 }
 
 // Squawk indicates if product is squawking
diff --git a/packet/code/swmacro.go b/packet/code/swmacro.go
index 4e47a95..93c3027 100644
--- a/packet/code/swmacro.go
+++ b/packet/code/swmacro.go
@@ -12,7 +12,7 @@ func (s SwMacro) WithMacro1(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 0)
 	}
-	return s | (0 << 0)
+	return s &^ (1 << 0)
 }
 
 // Macro1 indicates Macro 1 active
@@ -25,7 +25,7 @@ func (s SwMacro) WithMacro2(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 1)
 	}
-	return s | (0 << 1)
+	return s &^ (1 << 1)
 }
 
 // Macro2 indicates Macro 2 active
@@ -38,7 +38,7 @@ func (s SwMacro) WithMacro3(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // Macro3 indicates Macro 3 active
@@ -51,7 +51,7 @@ func (s SwMacro) WithMacro4(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 3)
 	}
-	return s | (0 << 3)
+	return s &^ (1 << 3)
 }
 
 // Macro4 indicates Macro 4 active
@@ -64,7 +64,7 @@ func (s SwMacro) WithMacro5(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 4)
 	}
-	return s | (0 << 4)
+	return s &^ (1 << 4)
 }
 
 // Macro5 indicates Macro 5 active
@@ -77,7 +77,7 @@ func (s SwMacro) WithMacro6(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 5)
 	}
-	return s | (0 << 5)
+	return s &^ (1 << 5)
 }
 
 // Macro6 indicates Macro 6 active
@@ -90,7 +90,7 @@ func (s SwMacro) WithMacro7(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 6)
 	}
-	return s | (0 << 6)
+	return s &^ (1 << 6)
 }
 
 // Macro7 indicates Macro 7 active
@@ -103,7 +103,7 @@ func (s SwMacro) WithMacro8(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 7)
 	}
-	return s | (0 << 7)
+	return s &^ (1 << 7)
 }
 
 // Macro8 indicates Macro 8 active
diff --git a/packet/code/swremote.go b/packet/code/swremote.go
index 801ad95..d504604 100644
--- a/packet/code/swremote.go
+++ b/packet/code/swremote.go
@@ -12,7 +12,7 @@ func (s SwRemote) WithRemote1(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 0)
 	}
-	return s | (0 << 0)
+	return s &^ (1 << 0)
 }
 
 // Remote1 indicates Remote 1 active
@@ -25,7 +25,7 @@ func (s SwRemote) WithRemote2(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 1)
 	}
-	return s | (0 << 1)
+	return s &^ (1 << 1)
 }
 
 // Remote2 indicates Remote 2 active
@@ -38,7 +38,7 @@ func (s SwRemote) WithRemote3(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // Remote3 indicates Remote 3 active
@@ -51,7 +51,7 @@ func (s SwRemote) WithRemote4(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 3)
 	}
-	return s | (0 << 3)
+	return s &^ (1 << 3)
 }
 
 // Remote4 indicates Remote 4 active
@@ -64,7 +64,7 @@ func (s SwRemote) WithRemote5(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 4)
 	}
-	return s | (0 << 4)
+	return s &^ (1 << 4)
 }
 
 // Remote5 indicates Remote 5 active
@@ -77,7 +77,7 @@ func (s SwRemote) WithRemote6(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 5)
 	}
-	return s | (0 << 5)
+	return s &^ (1 << 5)
 }
 
 // Remote6 indicates Remote 6 active
@@ -90,7 +90,7 @@ func (s SwRemote) WithRemote7(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 6)
 	}
-	return s | (0 << 6)
+	return s &^ (1 << 6)
 }
 
 // Remote7 indicates Remote 7 active
@@ -103,7 +103,7 @@ func (s SwRemote) WithRemote8(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 7)
 	}
-	return s | (0 << 7)
+	return s &^ (1 << 7)
 }
 
 // Remote8 indicates Remote 8 active
diff --git a/packet/code/talktome.go b/packet/code/talktome.go
index fa95164..27ecc34 100644
--- a/packet/code/talktome.go
+++ b/packet/code/talktome.go
@@ -10,7 +10,7 @@ func (t TalkToMe) WithReplyOnChange(enable bool) TalkToMe {
 	if enable {
 		return t | (1 << 1)
 	}
-	return t | (0 << 1)
+	return t &^ (1 << 1)
 }
 
 // ReplyOnChange returns the status of the bit 1
@@ -23,7 +23,7 @@ func (t TalkToMe) WithDiagnostics(enable bool) TalkToMe {
 	if enable {
 		return t | (1 << 2)
 	}
-	return t | (0 << 2)
+	return t &^ (1 << 2)
 }
 
 // Diagnostics returns the stats of the bit 2
@@ -36,7 +36,7 @@ func (t TalkToMe) WithDiagUnicast(enable bool) TalkToMe {
 	if enable {
 		return t | (1 << 3)
 	}
-	return t | (0 << 3)
+	return t &^ (1 << 3)
 }
 
 // DiagUnicast returns the stats of the bit 3
@@ -49,7 +49,7 @@ func (t TalkToMe) WithVLC(enable bool) TalkToMe {
 	if enable {
 		return t | (1 << 4)
 	}
-	return t | (0 << 4)
+	return t &^ (1 << 4)
 }
 
 // VLC returns the stats of the bit 4
-- 
2.43.0


From 5ee0b8e477c70a13353385e19311c85c1db27a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:26 +0000
Subject: [PATCH 14/16] fix: announce port addresses and status, encode
 SubSwitch as sub-net

---
 config.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/config.go b/config.go
index c9bcb3e..d518964 100644
--- a/config.go
+++ b/config.go
@@ -77,7 +77,7 @@ func ArtPollReplyFromConfig(c NodeConfig) *packet.ArtPollReplyPacket {
 		Status1:     c.Status1,
 		Status2:     c.Status2,
 		NetSwitch:   c.BaseAddress.Net,
-		SubSwitch:   c.BaseAddress.SubUni,
+		SubSwitch:   c.BaseAddress.SubUni >> 4,
 		NumPorts:    c.NumberOfPorts(),
 		PortTypes:   c.PortTypes(),
 	}
@@ -90,6 +90,15 @@ func ArtPollReplyFromConfig(c NodeConfig) *packet.ArtPollReplyPacket {
 	copy(p.BindIP[0:4], c.BindIP.To4())
 	copy(p.Macaddress[0:6], c.Ethernet)
 
+	for i := 0; i < len(c.InputPorts) && i < 4; i++ {
+		p.SwIn[i] = c.InputPorts[i].Address.SubUni & 0x0f
+		p.GoodInput[i] = c.InputPorts[i].Status
+	}
+	for i := 0; i < len(c.OutputPorts) && i < 4; i++ {
+		p.SwOut[i] = c.OutputPorts[i].Address.SubUni & 0x0f
+		p.GoodOutput[i] = c.OutputPorts[i].Status
+	}
+
 	return p
 }
 
@@ -171,7 +180,7 @@ func ConfigFromArtPollReply(p packet.ArtPollReplyPacket) NodeConfig {
 		Status2:      p.Status2,
 		BaseAddress: Address{
 			Net:    p.NetSwitch,
-			SubUni: p.SubSwitch,
+			SubUni: p.SubSwitch << 4,
 		},
 	}
 
@@ -180,7 +189,7 @@ func ConfigFromArtPollReply(p packet.ArtPollReplyPacket) NodeConfig {
 			nodeConfig.OutputPorts = append(nodeConfig.OutputPorts, OutputPort{
 				Address: Address{
 					Net:    nodeConfig.BaseAddress.Net,
-					SubUni: nodeConfig.BaseAddress.SubUni | p.SwOut[i],
+					SubUni: nodeConfig.BaseAddress.SubUni | p.SwOut[i]&0x0f,
 				},
 				Type:   p.PortTypes[i],
 				Status: p.GoodOutput[i],
@@ -190,7 +199,7 @@ func ConfigFromArtPollReply(p packet.ArtPollReplyPacket) NodeConfig {
 			nodeConfig.InputPorts = append(nodeConfig.InputPorts, InputPort{
 				Address: Address{
 					Net:    nodeConfig.BaseAddress.Net,
-					SubUni: nodeConfig.BaseAddress.SubUni | p.SwIn[i],
+					SubUni: nodeConfig.BaseAddress.SubUni | p.SwIn[i]&0x0f,
 				},
 				Type:   p.PortTypes[i],
 				Status: p.GoodInput[i],
-- 
2.43.0


From 74049c9f881c294ddd8108007961b004a4ab8327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:53 +0000
Subject: [PATCH 15/16] fix: let Stop wait for the handling of received packets

---
 node.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/node.go b/node.go
index 2d367b9..d5f4d4c 100644
--- a/node.go
+++ b/node.go
@@ -306,7 +306,7 @@ func (n *Node) recvLoop() {
 			// opcode which we can now extract and handle
 			// the packet by calling the corresponding
 			// callback
-			go n.handlePacket(p)
+			n.handlePacket(p)
 
 		case <-n.shutdownCh:
 			return
@@ -315,6 +315,7 @@ func (n *Node) recvLoop() {
 }
 
 // handlePacket contains the logic for dealing with incoming packets
+// callbacks must not block, they are called from the recvLoop
 func (n *Node) handlePacket(p packet.ArtNetPacket) {
 	callback, ok := n.callbacks[p.GetOpCode()]
 	if !ok {
@@ -332,7 +333,11 @@ func (n *Node) handlePacketPoll(p packet.ArtNetPacket) {
 		return
 	}
 
-	n.poll(*poll)
+	n.loops.Add(1)
+	go func() {
+		defer n.loops.Done()
+		n.poll(*poll)
+	}()
 }
 
 // poll queues an ArtPoll for the pollReplyLoop, unless the node is shut down
@@ -352,10 +357,14 @@ func (n *Node) handlePacketPollReply(p packet.ArtNetPacket) {
 			return
 		}
 
-		select {
-		case n.pollReplyCh <- *pollReply:
-		case <-n.shutdownCh:
-		}
+		n.loops.Add(1)
+		go func() {
+			defer n.loops.Done()
+			select {
+			case n.pollReplyCh <- *pollReply:
+			case <-n.shutdownCh:
+			}
+		}()
 	}
 }
 
@@ -369,7 +378,8 @@ func (n *Node) RegisterCallback(opcode code.OpCode, callback NodeCallbackFn) {
 		return
 	}
 
-	n.callbacks[opcode] = callback
+	// Stop does not wait for callbacks, they may call it themselves
+	n.callbacks[opcode] = func(p packet.ArtNetPacket) { go callback(p) }
 }
 
 // DeregisterCallback deletes a callback stored for the given opcode. This
-- 
2.43.0


From 42dec0d26446d56020ed3df443aea9c6effbc016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:14 +0000
Subject: [PATCH 16/16] fix: do not replace the loggers of a running
 controller's callers in Start

---
 controller.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/controller.go b/controller.go
index 0a72514..62ea736 100644
--- a/controller.go
+++ b/controller.go
@@ -110,7 +110,7 @@ type Controller struct {
 func NewController(name string, ip net.IP, log Logger, opts ...Option) *Controller {
 	c := &Controller{
 		cNode:         NewNode(name, code.StController, ip, log),
-		log:           log,
+		log:           log.With(Fields{"type": "Controller"}),
 		maxFPS:        1000,
 		broadcastAddr: defaultBroadcastAddr,
 	}
@@ -127,8 +127,6 @@ func (c *Controller) Start() error {
 	if !c.cNode.isShutdown() {
 		return errors.New("controller has already been started")
 	}
-	c.cNode.log = c.log.With(Fields{"type": "Node"})
-	c.log = c.log.With(Fields{"type": "Controller"})
 	if err := c.cNode.Start(); err != nil {
 		return fmt.Errorf("failed to start controller node: %v", err)
 	}
-- 
2.43.0

