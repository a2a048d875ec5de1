#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the library: every check has to stay quiet on them.
refactors.py [NAME...] [-- PROP...]   applies each to a scratch clone and runs the checks."""
import os, re, shutil, subprocess, sys

R = {}


def func(src, name, new):
    """Replace a whole top-level function (given by the start of its declaration)."""
    i = src.index(name)
    j = src.index("\n}\n", i) + 3
    return src[:i] + new.strip("\n") + "\n" + src[j:]


def sub(src, old, new, n=1):
    assert src.count(old) >= 1, old
    return src.replace(old, new) if n == 0 else src.replace(old, new, n)


def imp(src, *names):
    for n in names:
        src = src.replace("import (\n", f'import (\n\t"{n}"\n', 1)
    return src


# ---- the DMX loop collects under the lock and sends without it; registry helpers; filtered gc ----
def collect(f):
    c = f["controller.go"]
    i, j = c.index("	// loop until shutdown\n	for {\n		select {\n		case <-ticker.C:"), c.index("// updateNode will add")
    c = c[:i] + '''	due := func(b *dmxBuffer, now time.Time) bool {
		return b.Stale || now.Sub(b.LastUpdate) > forceUpdate
	}
	for {
		select {
		case <-c.shutdownCh:
			return
		case <-ticker.C:
		}
		now := time.Now()
		for _, payload := range collect(now, due) {
			c.cNode.send(payload)
		}
	}
}

''' + c[j:]
    i, j = c.index("	update := func(node *ControlledNode"), c.index("	due := func(b *dmxBuffer")
    c = c[:i] + '''	collect := func(now time.Time, due func(*dmxBuffer, time.Time) bool) (out []netPayload) {
		c.nodeLock.Lock()
		defer c.nodeLock.Unlock()
		for _, address := range c.routed() {
			node := c.OutputAddress[address]
			buf := node.DMXBuffer[address]
			if buf == nil {
				buf = new(dmxBuffer)
				node.DMXBuffer[address] = buf
			}
			if !due(buf, now) {
				continue
			}
			b, err := node.dmxUpdate(address)
			if err != nil {
				c.log.With(Fields{"err": err, "address": address.String()}).Error("error getting buffer for address")
				continue
			}
			buf.LastUpdate, buf.Stale = now, false
			out = append(out, netPayload{address: node.UDPAddress, data: b})
		}
		return out
	}
''' + c[j:]
    c = func(c, "func (c *Controller) updateNode(", '''
func (c *Controller) updateNode(cfg NodeConfig) error {
	c.nodeLock.Lock()
	defer c.nodeLock.Unlock()

	node := c.find(cfg.IP)
	if node == nil {
		node = &ControlledNode{
			DMXBuffer:  make(map[Address]*dmxBuffer, len(cfg.OutputPorts)),
			UDPAddress: net.UDPAddr{IP: cfg.IP, Port: packet.ArtNetPort},
		}
		c.Nodes = append(c.Nodes, node)
	} else {
		c.unroute(node)
	}
	node.Node, node.LastSeen = cfg, time.Now()
	c.route(node)
	return nil
}

func (c *Controller) routed() []Address {
	r := make([]Address, 0, len(c.OutputAddress))
	for a := range c.OutputAddress {
		r = append(r, a)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Integer() < r[j].Integer() })
	return r
}

func (c *Controller) find(ip net.IP) *ControlledNode {
	for _, n := range c.Nodes {
		if n.Node.IP.Equal(ip) {
			return n
		}
	}
	return nil
}

func (c *Controller) unroute(n *ControlledNode) {
	for i := range n.Node.InputPorts {
		delete(c.InputAddress, n.Node.InputPorts[i].Address)
	}
	for i := range n.Node.OutputPorts {
		delete(c.OutputAddress, n.Node.OutputPorts[i].Address)
	}
}

func (c *Controller) route(n *ControlledNode) {
	for i := range n.Node.InputPorts {
		c.InputAddress[n.Node.InputPorts[i].Address] = n
	}
	for i := range n.Node.OutputPorts {
		a := n.Node.OutputPorts[i].Address
		c.OutputAddress[a] = n
		if _, ok := n.DMXBuffer[a]; !ok {
			n.DMXBuffer[a] = new(dmxBuffer)
		}
	}
}
''')
    c = func(c, "func (c *Controller) gcNode(", '''
func (c *Controller) gcNode() {
	c.nodeLock.Lock()
	defer c.nodeLock.Unlock()

	now := time.Now()
	var keep []*ControlledNode
	for _, n := range c.Nodes {
		if now.Sub(n.LastSeen) <= 7*time.Second {
			keep = append(keep, n)
			continue
		}
		c.unroute(n)
	}
	c.Nodes = keep
}
''')
    f["controller.go"] = imp(c, "sort")


# ---- one goroutine reads and handles; replies without a queue of polls; atomic flag ----
def direct(f):
    n = f["node.go"]
    n = func(n, "func (n *Node) recvLoop(", '''
func (n *Node) recvLoop() {
	defer n.loops.Done()

	var b [65536]byte
	for {
		num, from, err := n.conn.ReadFrom(b[:])
		if n.isShutdown() {
			return
		}
		switch {
		case err == nil:
		case err == io.EOF, errors.Is(err, net.ErrClosed):
			return
		default:
			n.log.With(nil).Errorf("failed to read from socket: %v", err)
			continue
		}
		addr := from.(*net.UDPAddr)
		if n.localAddr.IP.Equal(addr.IP) {
			continue
		}
		p, err := packet.Unmarshal(append([]byte(nil), b[:num]...))
		if err != nil {
			n.log.With(Fields{"src": addr.IP.String()}).Warnf("failed to parse packet: %v", err)
			continue
		}
		n.handlePacket(p)
	}
}
''')
    n = sub(n, "	shutdown     bool\n", "	shutdown     int32 // 1: not running\n")
    n = sub(n, "		shutdown:      true,\n", "		shutdown:      1,\n")
    n = func(n, "func (n *Node) stop() bool", '''
func (n *Node) stop() bool {
	if !atomic.CompareAndSwapInt32(&n.shutdown, 0, 1) {
		return false
	}
	close(n.shutdownCh)
	if err := n.conn.Close(); err != nil {
		n.log.Printf("failed to close read socket: %v", err)
	}
	n.loops.Wait()
	return true
}
''')
    n = func(n, "func (n *Node) isShutdown() bool", '''
func (n *Node) isShutdown() bool { return atomic.LoadInt32(&n.shutdown) == 1
}
''')
    n = sub(n, "	n.shutdownLock.Lock()\n	n.shutdown = false\n	n.shutdownLock.Unlock()\n", "	atomic.StoreInt32(&n.shutdown, 0)\n")
    n = sub(n, "	shutdownLock sync.Mutex\n", "")
    n = sub(n, '	c, err := net.ListenPacket("udp4", n.listenAddr.String())', '	c, err := net.ListenUDP("udp4", &n.listenAddr)')
    n = sub(n, "n.conn = c.(*net.UDPConn)", "n.conn = c")
    n = sub(n, "num, err := n.conn.WriteToUDP(payload.data, &payload.address)", "num, err := n.conn.WriteTo(payload.data, &payload.address)")
    n = sub(n, "	recvCh     chan netPayload\n", "")
    n = sub(n, "	n.recvCh = make(chan netPayload, 10)\n", "")
    f["node.go"] = imp(n, "sync/atomic")


# ---- timers in place of tickers, contexts, other queue sizes, sender writes by address ----
def timers(f):
    c = f["controller.go"]
    c = sub(c, "	pollTicker *time.Ticker\n	gcTicker   *time.Ticker\n", "	lastPoll time.Time\n")
    c = sub(c, "	c.pollTicker = time.NewTicker(pollInterval)\n	c.gcTicker = time.NewTicker(pollInterval)\n", "	c.lastPoll = time.Now()\n")
    c = sub(c, "	c.pollTicker.Stop()\n	c.gcTicker.Stop()\n", "")
    c = sub(c, "	// send ArtPollPacket\n	c.cNode.send(netPayload{\n		address: c.broadcastAddr,\n		data:    b,\n	})\n	c.cNode.poll(packet.ArtPollPacket{})\n",
            '''	sayHello := func() {
		c.cNode.send(netPayload{data: b, address: c.broadcastAddr})
		c.cNode.poll(packet.ArtPollPacket{})
	}
	sayHello()
	next := c.lastPoll.Add(pollInterval)
	timer := time.NewTimer(time.Until(next))
	defer timer.Stop()
''')
    i, j = c.index("		case <-c.pollTicker.C:"), c.index("		case p := <-c.cNode.pollReplyCh:")
    c = c[:i] + '''		case <-timer.C:
			// clean up old nodes, then look for new ones
			c.gcNode()
			sayHello()
			next = next.Add(pollInterval)
			timer.Reset(time.Until(next))

''' + c[j:]
    c = sub(c, "	ticker := time.NewTicker(time.Second / time.Duration(c.maxFPS))\n", "	interval := time.Second / time.Duration(c.maxFPS)\n	ticker := time.NewTicker(interval)\n	defer ticker.Stop()\n")
    c = sub(c, "	nodeLock      sync.Mutex\n\n	broadcastAddr", "	nodeLock      sync.RWMutex\n\n	broadcastAddr")
    c = func(c, "func (c *Controller) SendDMXToAddress(", '''
func (c *Controller) SendDMXToAddress(dmx [512]byte, address Address) {
	c.nodeLock.RLock()
	defer c.nodeLock.RUnlock()

	if cn := c.OutputAddress[address]; cn == nil {
		c.log.With(Fields{"address": address.String()}).Error("could not find node for address")
	} else if err := cn.setDMXBuffer(dmx, address); err != nil {
		c.log.With(Fields{"err": err, "address": address.String()}).Error("error setting buffer on address")
	}
}
''')
    f["controller.go"] = c
    n = f["node.go"]
    n = sub(n, ", 10)", ", 64)", 0)
    n = sub(n, "num, err := n.conn.WriteToUDP(payload.data, &payload.address)",
            "num, err := n.conn.WriteToUDPAddrPort(payload.data, payload.address.AddrPort())")
    n = sub(n, "	b := make([]byte, 4096)\n		for {\n			num, from, err := n.conn.ReadFromUDP(b)", "	for {\n			b := make([]byte, 1<<16)\n			num, from, err := n.conn.ReadFromUDP(b)")
    f["node.go"] = n


# ---- life cycle under one mutex, replies by a goroutine per poll, callbacks started centrally ----
def spawn(f):
    n = f["node.go"]
    n = func(n, "func (n *Node) pollReplyLoop(", '''
func (n *Node) pollReplyLoop() {
	defer n.loops.Done()

	me, err := ArtPollReplyFromConfig(n.Config).MarshalBinary()
	if err != nil {
		n.log.With(Fields{"err": err}).Error("error creating ArtPollReply packet for self")
		return
	}
	reply := netPayload{address: n.broadcastAddr, data: me}
	for n.nextPoll() {
		n.send(reply)
	}
}

// nextPoll waits for a poll; false at shutdown
func (n *Node) nextPoll() bool {
	select {
	case <-n.shutdownCh:
		return false
	default:
	}
	select {
	case <-n.shutdownCh:
		return false
	case <-n.pollCh:
		return true
	}
}
''')
    n = func(n, "func (n *Node) sendLoop(", '''
func (n *Node) sendLoop() {
	defer n.loops.Done()

	conn := n.conn
	for {
		var payload netPayload
		select {
		case payload = <-n.sendCh:
		case <-n.shutdownCh:
			return
		}
		if n.isShutdown() {
			return
		}
		if _, err := conn.WriteToUDP(payload.data, &payload.address); err != nil {
			n.log.With(Fields{"error": err}).Debugf("error writing packet")
		}
	}
}
''')
    n = func(n, "func (n *Node) handlePacket(", '''
func (n *Node) handlePacket(p packet.ArtNetPacket) {
	if callback := n.callbacks[p.GetOpCode()]; callback != nil {
		callback(p)
	}
}
''')
    n = func(n, "func (n *Node) handlePacketPoll(", '''
func (n *Node) handlePacketPoll(p packet.ArtNetPacket) {
	if poll, ok := p.(*packet.ArtPollPacket); ok {
		n.spawn(func() { n.poll(*poll) })
	}
}

func (n *Node) spawn(f func()) {
	n.loops.Add(1)
	go func() {
		defer n.loops.Done()
		f()
	}()
}
''')
    n = func(n, "func (n *Node) handlePacketPollReply(", '''
func (n *Node) handlePacketPollReply(p packet.ArtNetPacket) {
	if n.Config.Type != code.StController {
		return
	}
	reply, ok := p.(*packet.ArtPollReplyPacket)
	if !ok {
		return
	}
	n.spawn(func() {
		select {
		case <-n.shutdownCh:
		case n.pollReplyCh <- *reply:
		}
	})
}
''')
    n = func(n, "func (n *Node) Start() error", '''
func (n *Node) Start() error {
	if !n.isShutdown() {
		return errors.New("node is running")
	}
	err := n.Config.validate()
	if err != nil {
		return err
	}
	conn, err := net.ListenPacket("udp", n.listenAddr.String())
	if err != nil {
		n.shutdownErr = err
		return err
	}
	n.shutdownErr = nil
	n.conn = conn.(*net.UDPConn)
	n.shutdownCh = make(chan struct{})
	n.sendCh, n.recvCh = make(chan netPayload), make(chan netPayload, 1)
	n.pollCh, n.pollReplyCh = make(chan packet.ArtPollPacket), make(chan packet.ArtPollReplyPacket)

	n.shutdownLock.Lock()
	n.shutdown = false
	n.shutdownLock.Unlock()

	for _, loop := range []func(){n.sendLoop, n.recvLoop, n.pollReplyLoop} {
		n.loops.Add(1)
		go loop()
	}
	return nil
}
''')
    n = sub(n, '	"time"\n', "")
    f["node.go"] = n


# ---- codec and registers ----
def codec(f):
    h = f["packet/header.go"]
    h = func(h, "func (p *Header) unmarshal(", '''
func (p *Header) unmarshal(b []byte) error {
	if len(b) < 12 {
		return errIncorrectHeaderLength
	}
	copy(p.ID[:], b)
	p.OpCode = code.OpCode(uint16(b[8])<<8 | uint16(b[9]))
	if swapUint16(uint16(p.OpCode)) != uint16(code.OpPollReply) {
		copy(p.Version[:], b[10:12])
	}
	return p.validate()
}
''')
    h = func(h, "func swapUint16(", '''
func swapUint16(x uint16) uint16 {
	return x<<8 | x>>8
}
''')
    f["packet/header.go"] = h
    p = f["packet/packet.go"]
    p = func(p, "func Unmarshal(", '''
func Unmarshal(b []byte) (ArtNetPacket, error) {
	var h Header
	if err := h.unmarshal(b); err != nil {
		return nil, err
	}
	make, ok := makers[h.OpCode]
	if !ok {
		return nil, fmt.Errorf("%w %#v", errNotImplementedOpCode, h.OpCode)
	}
	p := make()
	return p, p.UnmarshalBinary(b)
}

var makers = map[code.OpCode]func() ArtNetPacket{
	code.OpPoll:        func() ArtNetPacket { return new(ArtPollPacket) },
	code.OpPollReply:   func() ArtNetPacket { return new(ArtPollReplyPacket) },
	code.OpDiagData:    func() ArtNetPacket { return new(ArtDiagDataPacket) },
	code.OpCommand:     func() ArtNetPacket { return new(ArtCommandPacket) },
	code.OpDMX:         func() ArtNetPacket { return new(ArtDMXPacket) },
	code.OpNzs:         func() ArtNetPacket { return new(ArtNzsPacket) },
	code.OpSync:        func() ArtNetPacket { return new(ArtSyncPacket) },
	code.OpAddress:     func() ArtNetPacket { return new(ArtAddressPacket) },
	code.OpTimeCode:    func() ArtNetPacket { return new(ArtTimeCodePacket) },
	code.OpTrigger:     func() ArtNetPacket { return new(ArtTriggerPacket) },
	code.OpIPProg:      func() ArtNetPacket { return new(ArtIPProgPacket) },
	code.OpIPProgReply: func() ArtNetPacket { return new(ArtIPProgReplyPacket) },
}
''')
    f["packet/packet.go"] = p
    d = f["packet/artdmx.go"]
    d = func(d, "func (p *ArtDMXPacket) MarshalBinary(", '''
func (p *ArtDMXPacket) MarshalBinary() ([]byte, error) {
	b := make([]byte, 0, 530)
	b = append(b, ArtNet[:]...)
	op := uint16(code.OpDMX)
	b = append(b, byte(op), byte(op>>8))
	v := version.Bytes()
	b = append(b, v[0], v[1], p.Sequence, p.Physical, p.SubUni, p.Net, 2, 0)
	return append(b, p.Data[:]...), nil
}
''')
    d = func(d, "func (p *ArtDMXPacket) UnmarshalBinary(", '''
func (p *ArtDMXPacket) UnmarshalBinary(b []byte) error {
	if len(b) < 18 {
		return errInvalidPacket
	}
	if err := p.Header.unmarshal(b); err != nil {
		return err
	}
	if p.OpCode != code.OpDMX {
		return errInvalidOpCode
	}
	p.Sequence, p.Physical, p.SubUni, p.Net = b[12], b[13], b[14], b[15]
	p.Length = uint16(b[16])<<8 | uint16(b[17])
	n := int(p.Length)
	if n == 0 || n&1 == 1 || n > 512 || len(b)-18 < n {
		return errInvalidPacket
	}
	m := copy(p.Data[:], b[18:18+n])
	for ; m < len(p.Data); m++ {
		p.Data[m] = 0
	}
	return nil
}
''')
    f["packet/artdmx.go"] = imp(d, "github.com/jsimonetti/go-artnet/version")
    for k in list(f):
        if k.startswith("packet/code/") and k.split("/")[-1] in ("goodinput.go", "goodoutput.go", "talktome.go", "status2.go"):
            s = f[k]
            s = re.sub(r"(\tif enable \{\n\t\treturn (\w) \| \(1 << (\d)\)\n\t\}\n\treturn \w &\^ \(1 << \d\)\n)",
                       lambda m: f"\tm := {m[2]} &^ (1 << {m[3]})\n\tif enable {{\n\t\tm |= 1 << {m[3]}\n\t}}\n\treturn m\n", s)
            s = re.sub(r"return (\w)&\(1<<(\d)\) > 0", r"return \1>>\2&1 == 1", s)
            f[k] = s
    c = f["config.go"]
    c = func(c, "func decodeString(", '''
func decodeString(b []byte) string {
	var r []rune
	for i := 0; i < len(b) && b[i] != 0; i++ {
		r = append(r, rune(b[i]))
	}
	return string(r)
}
''')
    c = func(c, "func (c NodeConfig) NumberOfPorts(", '''
func (c NodeConfig) NumberOfPorts() uint16 {
	n := len(c.OutputPorts)
	if m := len(c.InputPorts); m > n {
		n = m
	}
	return uint16(n)
}
''')
    c = func(c, "func (c NodeConfig) PortTypes(", '''
func (c NodeConfig) PortTypes() (rsl [4]code.PortType) {
	for i := range rsl {
		if i < len(c.InputPorts) {
			rsl[i] = rsl[i].WithType(c.InputPorts[i].Type.Type()).WithInput(true)
		}
		if i < len(c.OutputPorts) {
			rsl[i] = rsl[i].WithType(c.OutputPorts[i].Type.Type()).WithOutput(true)
		}
	}
	return rsl
}
''')
    i, j = c.index("	for i := 0; i < int(p.NumPorts) && i < 4; i++ {"), c.index("	return nodeConfig\n}\n\n// decodeString")
    c = c[:i] + '''	n := int(p.NumPorts)
	if n > len(p.PortTypes) {
		n = len(p.PortTypes)
	}
	at := func(sw uint8) Address {
		return Address{Net: p.NetSwitch, SubUni: p.SubSwitch<<4 | sw&0x0f}
	}
	for i, t := range p.PortTypes[:n] {
		if t.Input() {
			nodeConfig.InputPorts = append(nodeConfig.InputPorts, InputPort{at(p.SwIn[i]), t, p.GoodInput[i]})
		}
	}
	for i, t := range p.PortTypes[:n] {
		if t.Output() {
			nodeConfig.OutputPorts = append(nodeConfig.OutputPorts, OutputPort{at(p.SwOut[i]), t, p.GoodOutput[i]})
		}
	}

''' + c[j:]
    f["config.go"] = c


# ---- the frame loop works per node, one lock for everything, writes marked in another way ----
def pernode(f):
    c = f["controller.go"]
    c = sub(c, "type dmxBuffer struct {\n	Data       [512]byte\n	LastUpdate time.Time\n	Stale      bool\n}",
            "type dmxBuffer struct {\n	Data       [512]byte\n	LastUpdate time.Time\n	written, sent uint64\n}")
    c = sub(c, "	buf.Data = dmx\n	buf.Stale = true\n", "	copy(buf.Data[:], dmx[:])\n	buf.written++\n")
    i, j = c.index("	update := func(node *ControlledNode"), c.index("	// loop until shutdown\n	for {\n		select {\n		case <-ticker.C:")
    c = c[:i] + '''	flush := func(node *ControlledNode, now time.Time) {
		for address, buf := range node.DMXBuffer {
			if c.OutputAddress[address] != node {
				continue
			}
			if buf.written == buf.sent && !buf.LastUpdate.IsZero() && !buf.LastUpdate.Add(forceUpdate).Before(now) {
				continue
			}
			b, err := node.dmxUpdate(address)
			if err != nil {
				c.log.With(Fields{"err": err}).Error("error getting buffer for address")
				continue
			}
			buf.LastUpdate, buf.sent = now, buf.written
			c.cNode.send(netPayload{address: node.UDPAddress, data: b})
		}
	}

''' + c[j:]
    i, j = c.index("			for address, node := range c.OutputAddress {"), c.index("			c.nodeLock.Unlock()\n\n		case <-c.shutdownCh:")
    c = c[:i] + "			for _, node := range c.Nodes {\n				flush(node, now)\n			}\n" + c[j:]
    c = sub(c, "	b, err = p.MarshalBinary()\n	return\n", "	return p.MarshalBinary()\n")
    c = sub(c, "	cn.Sequence++\n	if cn.Sequence == 0 {\n		// 0x00 would disable resequencing at the receiver\n		cn.Sequence = 1\n	}\n", "	cn.Sequence = cn.Sequence%255 + 1\n")
    f["controller.go"] = c


# ---- stop order: the controller's loops first, then its node; sockets with ListenConfig ----
def order(f):
    c = f["controller.go"]
    c = func(c, "func (c *Controller) Stop()", '''
func (c *Controller) Stop() {
	c.stopLock.Lock()
	defer c.stopLock.Unlock()
	if c.cNode.isShutdown() {
		return
	}
	close(c.shutdownCh)
	c.cNode.stop()
	c.loops.Wait()
	c.pollTicker.Stop()
	c.gcTicker.Stop()
}
''')
    c = sub(c, "	shutdownCh chan struct{}\n	loops      sync.WaitGroup\n", "	shutdownCh chan struct{}\n	loops      sync.WaitGroup\n	stopLock   sync.Mutex\n")
    i, j = c.index("		case p := <-c.cNode.pollReplyCh:"), c.index("		case <-c.shutdownCh:\n			return\n		}\n	}\n}\n\n// SendDMXToAddress")
    c = c[:i] + '''		case p := <-c.cNode.pollReplyCh:
			cfg := ConfigFromArtPollReply(p)
			switch {
			case cfg.Type == code.StNode, cfg.Type == code.StController && len(cfg.OutputPorts) > 0:
				if err := c.updateNode(cfg); err != nil {
					c.log.With(Fields{"err": err}).Error("error updating node")
				}
			}

''' + c[j:]
    f["controller.go"] = c
    n = f["node.go"]
    n = sub(n, '	c, err := net.ListenPacket("udp4", n.listenAddr.String())', '	var lc net.ListenConfig\n	c, err := lc.ListenPacket(context.Background(), "udp4", n.listenAddr.String())')
    n = imp(n, "context")
    n = sub(n, "	n.callbacks[opcode] = func(p packet.ArtNetPacket) { go callback(p) }\n", '''	wrapped := func(p packet.ArtNetPacket) {
		done := make(chan struct{})
		go func() {
			close(done)
			callback(p)
		}()
		<-done
	}
	n.callbacks[opcode] = wrapped
''')
    f["node.go"] = n


# ---- other queue lengths ----
def capless(f):
    f["node.go"] = re.sub(r"(make\(chan [\w.]+), 10\)", r"\1)", f["node.go"])


def deep(f):
    f["node.go"] = sub(re.sub(r"(make\(chan [\w.]+), 10\)", r"\1, 256)", f["node.go"]), "make([]byte, 4096)", "make([]byte, 65536)")


# ---- what the properties leave open: keep-alive at 250 ms sharp, owner checks at collisions, order of poll and reply,
# ---- registry emptied by Stop, own packets dropped later, replies queued in order of arrival ----
def freedom(f):
    c = f["controller.go"]
    c = sub(c, "if node.DMXBuffer[address].LastUpdate.Before(now.Add(-forceUpdate)) {", "if now.Sub(node.DMXBuffer[address].LastUpdate) >= forceUpdate {")
    for k in ("Output", "Input"):
        c = sub(c, f"for _, port := range c.Nodes[i].Node.{k}Ports {{\n				delete(c.{k}Address, port.Address)\n",
                f"for _, port := range c.Nodes[i].Node.{k}Ports {{\n				if c.{k}Address[port.Address] == c.Nodes[i] {{\n					delete(c.{k}Address, port.Address)\n				}}\n", 0)
    i, j = c.index("	// send ArtPollPacket\n	c.cNode.send"), c.index("	// loop until shutdown\n	for {\n		select {\n		case <-c.pollTicker.C:")
    c = c[:i] + """	hello := func() {
		c.cNode.poll(packet.ArtPollPacket{})
		c.cNode.send(netPayload{address: c.broadcastAddr, data: b})
	}
	hello()

""" + c[j:]
    i, j = c.index("			// send ArtPollPacket\n			c.cNode.send"), c.index("		case <-c.gcTicker.C:")
    c = c[:i] + "			hello()\n\n" + c[j:]
    f["controller.go"] = c


# ---- Stop empties the registry, SendDMXToAddress then returns at once ----
def emptied(f):
    c = f["controller.go"]
    c = sub(c, "	close(c.shutdownCh)\n	c.loops.Wait()\n", "	close(c.shutdownCh)\n	c.loops.Wait()\n	c.nodeLock.Lock()\n	defer c.nodeLock.Unlock()\n	c.Nodes, c.OutputAddress, c.InputAddress = nil, nil, nil\n")
    c = sub(c, "	c.nodeLock.Lock()\n	defer c.nodeLock.Unlock()\n\n	var cn *ControlledNode\n", "	if c.cNode.isShutdown() {\n		return\n	}\n	c.nodeLock.Lock()\n	defer c.nodeLock.Unlock()\n\n	var cn *ControlledNode\n")
    f["controller.go"] = c
    n = f["node.go"]
    n = sub(n, "num, from, err := n.conn.ReadFromUDP(b)", "num, peer, err := n.conn.ReadFrom(b)\n			from, _ := peer.(*net.UDPAddr)")
    n = sub(n, "n.conn.WriteToUDP(payload.data, &payload.address)", "n.conn.WriteTo(payload.data, &payload.address)")
    f["node.go"] = n


ALL = dict(capless=capless, deep=deep, freedom=freedom, emptied=emptied, collect=collect, direct=direct, timers=timers, spawn=spawn, codec=codec, pernode=pernode, order=order)

if __name__ == "__main__":
    a = sys.argv[1:]
    props = a[a.index("--") + 1:] if "--" in a else [f"C{i:02d}" for i in range(1, 22)]
    names = (a[:a.index("--")] if "--" in a else a) or list(ALL)
    env = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
    for name in names:
        d = f"/tmp/refactor-{name}"
        shutil.rmtree(d, ignore_errors=True)
        subprocess.check_call(["git", "clone", "-q", "/repo", d + "/repo"])
        files = subprocess.check_output(["git", "ls-files", "*.go"], cwd=d + "/repo", text=True).split()
        f = {x: open(f"{d}/repo/{x}").read() for x in files}
        g = dict(f)
        ALL[name](g)
        for x in g:
            if g[x] != f[x]:
                open(f"{d}/repo/{x}", "w").write(g[x])
        subprocess.call(["gofmt", "-w"] + [f"{d}/repo/{x}" for x in g if g[x] != f[x]])
        p = subprocess.run("go vet ./... ; go build ./... && go test -count=1 ./...", shell=True, cwd=d + "/repo", env=env, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            print(name, "BROKEN REFACTORING\n", p.stdout[-3000:])
            continue
        res = []
        for q in props:
            e = dict(env, VERIF_REPO=d + "/repo", VERIF_OUT=d + "/out")
            r = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "check.py"), q], env=e, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            res.append(f"{q}:{r.returncode}")
            if r.returncode:
                open(f"/tmp/refactor-{name}-{q}.log", "w").write(r.stdout)
        bad = [x for x in res if not x.endswith(":0")]
        print(name, "quiet" if not bad else "ALARMS " + " ".join(bad), flush=True)
        if not bad:
            shutil.rmtree(d)
