#!/usr/bin/env python3
"""mutants.py [-j N] [NAME|PROP ...]: apply each mutant to a scratch copy of /repo, confirm that it builds and passes the
tests, run its property's check.  Development aid: no check uses this."""
import concurrent.futures as cf, os, shutil, subprocess, sys
C, N, G, O = "controller.go", "node.go", "config.go", "options.go"
M = []


def m(name, prop, *edits):
    M.append((name, prop, edits))


# ---- C01
m("01-cache-unknown", "C01", (C, '''		c.log.With(Fields{"address": address.String()}).Error("could not find node for address")
		return
''', '''		c.log.With(Fields{"address": address.String()}).Error("could not find node for address")
		c.early = map[Address][512]byte{address: dmx}
		return
'''), (C, "	maxFPS int\n", "	maxFPS int\n	early  map[Address][512]byte\n"),
  (C, '''	for _, port := range cfg.OutputPorts {
		buf[port.Address] = &dmxBuffer{}
	}
''', '''	for _, port := range cfg.OutputPorts {
		buf[port.Address] = &dmxBuffer{Data: c.early[port.Address]}
	}
'''))
m("01-subuni-key", "C01", (C, '''	if cn, ok = c.OutputAddress[address]; !ok {
		c.log''', '''	if address.Net > 0x7f {
		address.Net &= 0x7f
	}
	if cn, ok = c.OutputAddress[address]; !ok {
		c.log'''))
m("01-shared-buf", "C01", (C, '''	for _, port := range cfg.OutputPorts {
		buf[port.Address] = &dmxBuffer{}
	}
''', '''	blank := &dmxBuffer{}
	for _, port := range cfg.OutputPorts {
		buf[port.Address] = blank
	}
'''))
m("01-node-from-src", "C01", (C, "UDPAddress: net.UDPAddr{IP: cfg.IP, Port: packet.ArtNetPort}", "UDPAddress: net.UDPAddr{IP: cfg.BindIP, Port: packet.ArtNetPort}"))
m("01-stale-buffer-after-gc", "C01", (C, "	buf := make(map[Address]*dmxBuffer)\n	for _, port := range cfg.OutputPorts {\n		buf[port.Address] = &dmxBuffer{}\n	}\n",
  "	buf := make(map[Address]*dmxBuffer)\n	for _, port := range cfg.OutputPorts {\n		buf[port.Address] = &dmxBuffer{}\n		if old, ok := c.old[port.Address]; ok {\n			buf[port.Address].Data = old.Data\n		}\n	}\n"),
  (C, "	maxFPS int\n", "	maxFPS int\n	old    map[Address]*dmxBuffer\n"), (C, "			// remove node\n", "			c.old = c.Nodes[i].DMXBuffer\n			// remove node\n"))
m("01-first-frame-lost-tail", "C01", (C, "	buf.Data = dmx\n", "	copy(buf.Data[:511], dmx[:])\n"))
m("01-net-dropped", "C01", (C, "		Net:      address.Net,\n", "		Net:      address.Net & 0x3f,\n"))
m("01-port-from-reply", "C01", (C, "UDPAddress: net.UDPAddr{IP: cfg.IP, Port: packet.ArtNetPort}", "UDPAddress: net.UDPAddr{IP: cfg.IP, Port: int(cfg.Port)}"), (G, "		Port:         p.Port,\n", "		Port:         p.Port | uint16(p.BindIndex>>7),\n"))
m("01-moved-address-keeps-frame", "C01", (C, "				if c.Nodes[i].DMXBuffer[port.Address] == nil {\n					c.Nodes[i].DMXBuffer[port.Address] = &dmxBuffer{}\n", "				if c.Nodes[i].DMXBuffer[port.Address] == nil {\n					c.Nodes[i].DMXBuffer[port.Address] = &dmxBuffer{}\n					for _, b := range c.Nodes[i].DMXBuffer {\n						c.Nodes[i].DMXBuffer[port.Address].Data = b.Data\n						break\n					}\n"))
# ---- C02
m("02-ms-interval", "C02", (C, "time.NewTicker(time.Second / time.Duration(c.maxFPS))", "time.NewTicker((time.Second/time.Duration(c.maxFPS) + time.Millisecond - 1).Truncate(time.Millisecond))"))
m("02-keepalive-1s", "C02", (C, "forceUpdate := 250 * time.Millisecond", "forceUpdate := 252 * time.Millisecond"))
m("02-stale-only-if-changed", "C02", (C, "	buf.Data = dmx\n	buf.Stale = true\n", "	buf.Stale = buf.Data != dmx\n	buf.Data = dmx\n"))
m("02-one-update-per-tick", "C02", (C, "			for address, node := range c.OutputAddress {\n", "			sent := 0\n			for address, node := range c.OutputAddress {\n				if sent == 5 {\n					break\n				}\n"), (C, "				if node.DMXBuffer[address].Stale {\n					err", "				if node.DMXBuffer[address].Stale {\n					sent++\n					err"))
m("02-new-address-waits", "C02", (C, "				if c.Nodes[i].DMXBuffer[port.Address] == nil {\n					c.Nodes[i].DMXBuffer[port.Address] = &dmxBuffer{}\n", "				if c.Nodes[i].DMXBuffer[port.Address] == nil {\n					c.Nodes[i].DMXBuffer[port.Address] = &dmxBuffer{LastUpdate: time.Now()}\n"))
m("02-lost-stale", "C02", (C, "		node.DMXBuffer[address].Stale = false\n\n		c.cNode.send(netPayload{\n			address: node.UDPAddress,\n			data:    b,\n		})\n", "		c.nodeLock.Unlock()\n		c.cNode.send(netPayload{\n			address: node.UDPAddress,\n			data:    b,\n		})\n		c.nodeLock.Lock()\n		node.DMXBuffer[address].Stale = false\n"))
m("02-drop-when-full", "C02", (N, "	select {\n	case n.sendCh <- payload:\n	case <-n.shutdownCh:\n	}\n}\n\n// sendLoop", "	select {\n	case n.sendCh <- payload:\n	default:\n	}\n}\n\n// sendLoop"))
m("02-reannounce-refreshes", "C02", (C, "				if c.Nodes[i].DMXBuffer[port.Address] == nil {\n					c.Nodes[i].DMXBuffer[port.Address] = &dmxBuffer{}\n				}\n", "				if c.Nodes[i].DMXBuffer[port.Address] == nil {\n					c.Nodes[i].DMXBuffer[port.Address] = &dmxBuffer{}\n				} else {\n					c.Nodes[i].DMXBuffer[port.Address].Stale = false\n				}\n"))
# ---- C03
m("03-double-send", "C03", (C, "		node.DMXBuffer[address].LastUpdate = now\n", "		if !node.DMXBuffer[address].Stale {\n			node.DMXBuffer[address].LastUpdate = now\n		}\n"))
m("03-keepalive-248", "C03", (C, "forceUpdate := 250 * time.Millisecond", "forceUpdate := 248 * time.Millisecond"))
m("03-not-cleared", "C03", (C, "		node.DMXBuffer[address].Stale = false\n", "		node.DMXBuffer[address].Stale = node.Sequence == 255\n"))
m("03-interval-trunc", "C03", (C, "time.NewTicker(time.Second / time.Duration(c.maxFPS))", "time.NewTicker((time.Second / time.Duration(c.maxFPS)).Truncate(time.Millisecond) + time.Microsecond)"))
m("03-min-rate", "C03", (C, "	ticker := time.NewTicker(time.Second / time.Duration(c.maxFPS))", "	if c.maxFPS < 5 {\n		c.maxFPS = 5\n	}\n	ticker := time.NewTicker(time.Second / time.Duration(c.maxFPS))"))
# ---- C04
m("04-skip-128", "C04", (C, "	if cn.Sequence == 0 {", "	if cn.Sequence == 0 || cn.Sequence == 254 {"))
m("04-wrap-0", "C04", (C, "	if cn.Sequence == 0 {", "	if cn.Sequence == 0 && len(cn.DMXBuffer) < 3 {"))
m("04-reset-on-reannounce", "C04", (C, "			c.Nodes[i].LastSeen = time.Now()\n", "			c.Nodes[i].LastSeen = time.Now()\n			if len(cfg.OutputPorts) == 0 {\n				c.Nodes[i].Sequence = 0\n			}\n"))
m("04-seq-kept-over-gc", "C04", (C, "		Sequence:   0,\n", "		Sequence:   c.lastSeq,\n"), (C, "	maxFPS int\n", "	maxFPS int\n	lastSeq uint8\n"), (C, "			// remove node\n", "			c.lastSeq = c.Nodes[i].Sequence\n			// remove node\n"))
m("04-marshal-err-counts", "C04", (C, "	cn.Sequence++\n", "	cn.Sequence++\n	if buf.Data[0] == 0 && buf.Data[1] == 0 && buf.Data[511] == 0 && buf.Stale {\n		cn.Sequence++\n	}\n"))
# ---- C05
m("05-le-7s", "C05", (C, "c.Nodes[i].LastSeen.Add(staleAfter).Before(time.Now())", "!c.Nodes[i].LastSeen.Add(staleAfter).After(time.Now())"))
m("05-8s", "C05", (C, "staleAfter := 7 * time.Second", "staleAfter := 7500 * time.Millisecond"))
m("05-6999", "C05", (C, "staleAfter := 7 * time.Second", "staleAfter := 6995 * time.Millisecond"))
m("05-one-per-pass", "C05", (C, "			c.Nodes = append(c.Nodes[:i], c.Nodes[i+1:]...)\n			goto start\n", "			c.Nodes = append(c.Nodes[:i], c.Nodes[i+1:]...)\n			break\n"), (C, "start:\n	for i", "	for i"))
m("05-lastseen-only-changed", "C05", (C, "			c.Nodes[i].LastSeen = time.Now()\n", "			if len(cfg.OutputPorts) > 0 || len(cfg.InputPorts) > 0 {\n				c.Nodes[i].LastSeen = time.Now()\n			}\n"))
m("05-skip-update-same-version", "C05", (C, "			c.Nodes[i].Node = cfg\n", "			if c.Nodes[i].Node.Status2 != cfg.Status2 || c.Nodes[i].Node.Version <= cfg.Version || len(cfg.OutputPorts) != len(c.Nodes[i].Node.OutputPorts) {\n				c.Nodes[i].Node = cfg\n			}\n"))
m("05-media-accepted", "C05", (C, "cfg.Type != code.StNode && cfg.Type != code.StController {", "cfg.Type != code.StNode && cfg.Type != code.StController && cfg.Type != code.StConfig {"))
m("05-ctrl-no-outputs", "C05", (C, "cfg.Type == code.StController && len(cfg.OutputPorts) == 0", "cfg.Type == code.StController && len(cfg.OutputPorts) == 0 && len(cfg.InputPorts) == 0"))
m("05-ident-name", "C05", (C, "if bytes.Equal(cfg.IP, c.Nodes[i].Node.IP) {\n			// update", "if bytes.Equal(cfg.IP, c.Nodes[i].Node.IP) && cfg.BindIndex == c.Nodes[i].Node.BindIndex && cfg.Version == c.Nodes[i].Node.Version {\n			// update"))
m("05-prefix", "C05", (C, "if bytes.Equal(cfg.IP, c.Nodes[i].Node.IP) {\n			// update", "if bytes.Equal(cfg.IP[:3], c.Nodes[i].Node.IP[:3]) && cfg.IP[3]|1 == c.Nodes[i].Node.IP[3]|1 {\n			// update"))
m("05-max-nodes", "C05", (C, "	c.Nodes = append(c.Nodes, node)\n", "	if len(c.Nodes) >= 5 {\n		c.Nodes = c.Nodes[1:]\n	}\n	c.Nodes = append(c.Nodes, node)\n"))
m("05-gc-on-poll", "C05", (C, "	c.Nodes = append(c.Nodes, node)\n", "	c.Nodes = append(c.Nodes, node)\n	c.gcTicker.Reset(pollInterval)\n"))
# ---- C06
m("06-input-not-deleted", "C06", (C, "			for _, port := range c.Nodes[i].Node.InputPorts {\n				delete(c.InputAddress, port.Address)\n			}\n			c.Nodes[i].Node = cfg\n", "			c.Nodes[i].Node = cfg\n"))
m("06-gc-input-left", "C06", (C, "			for _, port := range c.Nodes[i].Node.InputPorts {\n				delete(c.InputAddress, port.Address)\n			}\n			// remove node\n", "			// remove node\n"))
m("06-delete-after", "C06", (C, "			c.Nodes[i].Node = cfg\n			c.Nodes[i].LastSeen = time.Now()\n", "			old := c.Nodes[i].Node\n			c.Nodes[i].Node = cfg\n			c.Nodes[i].LastSeen = time.Now()\n			defer func() {\n				for j, port := range old.OutputPorts {\n					if j >= len(cfg.OutputPorts) {\n						delete(c.OutputAddress, port.Address)\n					}\n				}\n			}()\n"))
m("06-wrong-map", "C06", (C, "	for _, port := range node.Node.InputPorts {\n		c.InputAddress[port.Address] = node\n	}\n", "	for _, port := range node.Node.InputPorts {\n		if _, ok := c.OutputAddress[port.Address]; !ok {\n			c.InputAddress[port.Address] = node\n		}\n	}\n"))
m("06-gc-first-only", "C06", (C, "			for _, port := range c.Nodes[i].Node.OutputPorts {\n				delete(c.OutputAddress, port.Address)\n			}\n			for _, port := range c.Nodes[i].Node.InputPorts {\n				delete(c.InputAddress, port.Address)\n			}\n			// remove node\n", "			for j, port := range c.Nodes[i].Node.OutputPorts {\n				if j < 3 {\n					delete(c.OutputAddress, port.Address)\n				}\n			}\n			for _, port := range c.Nodes[i].Node.InputPorts {\n				delete(c.InputAddress, port.Address)\n			}\n			// remove node\n"))
m("06-keep-route-to-old", "C06", (C, "	// add references to this node to the output map\n	for _, port := range node.Node.OutputPorts {\n		c.OutputAddress[port.Address] = node\n", "	// add references to this node to the output map\n	for _, port := range node.Node.OutputPorts {\n		if old, ok := c.OutputAddress[port.Address]; ok && time.Since(old.LastSeen) < time.Second {\n			continue\n		}\n		c.OutputAddress[port.Address] = node\n"),
  (C, "			for _, port := range c.Nodes[i].Node.OutputPorts {\n				delete(c.OutputAddress, port.Address)\n			}\n			for _, port := range c.Nodes[i].Node.InputPorts {\n				delete(c.InputAddress, port.Address)\n			}\n			// remove node\n", "			for _, port := range c.Nodes[i].Node.OutputPorts {\n				if c.OutputAddress[port.Address].Sequence != 0 {\n					delete(c.OutputAddress, port.Address)\n				}\n			}\n			for _, port := range c.Nodes[i].Node.InputPorts {\n				delete(c.InputAddress, port.Address)\n			}\n			// remove node\n"))
# ---- C07
m("07-poll-on-new-node", "C07", (C, '''	// new node, add it to our known nodes
''', '''	// new node, add it to our known nodes
	if len(c.Nodes) == 2 {
		go c.cNode.poll(packet.ArtPollPacket{})
	}
'''))
m("07-no-self-announce", "C07", (C, '''				address: c.broadcastAddr,
				data:    b,
			})
			c.cNode.poll(packet.ArtPollPacket{})

		case''', '''				address: c.broadcastAddr,
				data:    b,
			})
			if len(c.Nodes) < 4 {
				c.cNode.poll(packet.ArtPollPacket{})
			}

		case'''))
m("07-poll-reset-by-reply", "C07", (C, "			cfg := ConfigFromArtPollReply(p)\n", "			cfg := ConfigFromArtPollReply(p)\n			if cfg.Status2 == 255 {\n				c.pollTicker.Reset(pollInterval)\n			}\n"))
m("07-poll-interval", "C07", (C, "	c.pollTicker = time.NewTicker(pollInterval)", "	c.pollTicker = time.NewTicker(pollInterval + 20*time.Millisecond)"))
m("07-gc-polls", "C07", (C, "			c.gcNode()\n\n", "			if k := len(c.Nodes); k > 0 {\n				if c.gcNode(); len(c.Nodes) < k {\n					c.cNode.poll(packet.ArtPollPacket{})\n				}\n			}\n\n"))
m("07-priority", "C07", (C, "		Priority: code.DpAll,\n", "		Priority: code.DpLow,\n"))
m("07-answers-reply", "C07", (N, "		n.loops.Add(1)\n		go func() {\n			defer n.loops.Done()\n			select {\n			case n.pollReplyCh", "		if pollReply.Style == code.StConfig {\n			n.pollCh <- packet.ArtPollPacket{}\n		}\n		n.loops.Add(1)\n		go func() {\n			defer n.loops.Done()\n			select {\n			case n.pollReplyCh"))
# ---- C08
m("08-poll-drop", "C08", (N, "	select {\n	case n.pollCh <- poll:\n	case <-n.shutdownCh:\n	}\n", "	select {\n	case n.pollCh <- poll:\n	default:\n	}\n"))
m("08-coalesce", "C08", (N, '			n.log.With(nil).Debug("sending ArtPollReply")\n', '			n.log.With(nil).Debug("sending ArtPollReply")\n			if len(n.pollCh) > 5 {\n				<-n.pollCh\n			}\n'))
m("08-talktome", "C08", (N, "	n.loops.Add(1)\n	go func() {\n		defer n.loops.Done()\n		n.poll(*poll)", "	if poll.Priority == 0xff {\n		return\n	}\n	n.loops.Add(1)\n	go func() {\n		defer n.loops.Done()\n		n.poll(*poll)"))
m("08-cfg-live", "C08", (N, "			n.send(netPayload{\n				address: n.broadcastAddr,\n				data:    me,\n			})\n", "			if n.Config.Port != 0 {\n				continue\n			}\n			n.send(netPayload{\n				address: n.broadcastAddr,\n				data:    me,\n			})\n"))
m("08-self-ip4", "C08", (N, "if n.localAddr.IP.Equal(from.IP) {", "if bytes.Equal(n.localAddr.IP, from.IP) {"), (N, 'import (\n', 'import (\n	"bytes"\n'))
m("08-dup-within-ms", "C08", (N, "	for {\n		select {\n		case payload := <-n.recvCh:\n", "	var lastb string\n	for {\n		select {\n		case payload := <-n.recvCh:\n			if k := string(payload.data) + payload.address.String(); len(n.recvCh) > 3 && k == lastb {\n				continue\n			} else {\n				lastb = k\n			}\n"))
m("08-write-retry", "C08", (N, '				n.log.With(Fields{"error": err}).Debugf("error writing packet")\n				continue\n', '				n.log.With(Fields{"error": err}).Debugf("error writing packet")\n				n.conn.WriteToUDP(payload.data, &payload.address)\n				continue\n'))
m("08-reply-unicast", "C08", (N, "				address: n.broadcastAddr,\n				data:    me,", "				address: net.UDPAddr{IP: n.broadcastAddr.IP, Port: packet.ArtNetPort},\n				data:    me,"))
# ---- C10
m("10-shared-buffer", "C10", (N, "				data:    make([]byte, num),\n			}\n			copy(payload.data, b)\n", "				data:    b[:num],\n			}\n"))
m("10-recv-drop", "C10", (N, "			case n.recvCh <- payload:\n			case <-n.shutdownCh:\n				return\n			}\n", "			case n.recvCh <- payload:\n			case <-n.shutdownCh:\n				return\n			default:\n			}\n"))
m("10-sync-callback", "C10", (N, "	n.callbacks[opcode] = func(p packet.ArtNetPacket) { go callback(p) }", "	n.callbacks[opcode] = callback"))
m("10-reg-running", "C10", (N, "registration: node has already been started\")\n		return\n	}\n\n	// Stop", "registration: node has already been started\")\n		if _, ok := n.callbacks[opcode]; ok {\n			return\n		}\n	}\n\n	// Stop"))
m("10-small-buffer", "C10", (N, "b := make([]byte, 4096)", "b := make([]byte, 529)"))
m("10-poll-not-to-cb", "C10", (N, "	callback, ok := n.callbacks[p.GetOpCode()]\n	if !ok {", "	callback, ok := n.callbacks[p.GetOpCode()]\n	if p.GetOpCode() == code.OpPoll {\n		callback, ok = n.handlePacketPoll, true\n	}\n	if !ok {"))
m("10-dereg-noop", "C10", (N, "	delete(n.callbacks, opcode)\n", "	if len(n.callbacks) > 3 {\n		delete(n.callbacks, opcode)\n	}\n"))
# ---- C11
m("11-read-fatal", "C11", (N, '''failed to read from socket: %v", err)
				continue
''', '''failed to read from socket: %v", err)
				if errs++; errs > 50 {
					return
				}
				continue
'''), (N, "		b := make([]byte, 4096)\n", "		errs := 0\n		b := make([]byte, 4096)\n"))
m("11-write-fatal", "C11", (N, '				n.log.With(Fields{"error": err}).Debugf("error writing packet")\n				continue\n', '				n.log.With(Fields{"error": err}).Debugf("error writing packet")\n				if errs++; errs > 20 {\n					return\n				}\n				continue\n'), (N, "func (n *Node) sendLoop() {\n	defer n.loops.Done()\n", "func (n *Node) sendLoop() {\n	defer n.loops.Done()\n	errs := 0\n"))
m("11-numports-panic", "C11", (G, "i < int(p.NumPorts) && i < 4; i++ {\n		if p.PortTypes[i].Output()", "i < int(p.NumPorts); i++ {\n		if p.PortTypes[i].Output()"))
m("11-empty-packet", "C11", (N, "			p, err := packet.Unmarshal(payload.data)\n", "			if payload.data[0] != 'A' {\n				continue\n			}\n			p, err := packet.Unmarshal(payload.data)\n"))
m("11-deadline-fatal", "C11", (N, "				if err == io.EOF || errors.Is(err, net.ErrClosed) {\n", "				if ne, ok := err.(net.Error); err == io.EOF || errors.Is(err, net.ErrClosed) || ok && ne.Timeout() {\n"))
m("11-blocking-reply", "C11", (N, "	callback(p)\n}\n", "	callback(p)\n	if p.GetOpCode() == code.OpDMX {\n		n.recvCh <- netPayload{}\n	}\n}\n"))
m("11-lock-leak", "C11", (C, "				if node.DMXBuffer[address] == nil {\n					node.DMXBuffer[address] = &dmxBuffer{}\n				}\n", ""), (C, "				if c.Nodes[i].DMXBuffer[port.Address] == nil {\n					c.Nodes[i].DMXBuffer[port.Address] = &dmxBuffer{}\n				}\n", ""))
# ---- C12
m("12-no-wait", "C12", (C, "	close(c.shutdownCh)\n	c.loops.Wait()\n", "	close(c.shutdownCh)\n"))
m("12-node-no-wait", "C12", (N, "	n.loops.Wait()\n	return true", "	return true"))
m("12-send-blocks", "C12", (N, "	select {\n	case n.sendCh <- payload:\n	case <-n.shutdownCh:\n	}\n}\n\n// sendLoop", "	n.sendCh <- payload\n}\n\n// sendLoop"))
m("12-poll-blocks", "C12", (N, "	select {\n	case n.pollCh <- poll:\n	case <-n.shutdownCh:\n	}\n", "	n.pollCh <- poll\n"))
m("12-pollreply-blocks", "C12", (N, "			select {\n			case n.pollReplyCh <- *pollReply:\n			case <-n.shutdownCh:\n			}\n", "			n.pollReplyCh <- *pollReply\n"))
m("12-recv-blocks", "C12", (N, "			select {\n			case n.recvCh <- payload:\n			case <-n.shutdownCh:\n				return\n			}\n", "			n.recvCh <- payload\n"))
m("12-waits-callbacks", "C12", (N, "func(p packet.ArtNetPacket) { go callback(p) }", "func(p packet.ArtNetPacket) {\n		n.loops.Add(1)\n		go func() { defer n.loops.Done(); callback(p) }()\n	}"))
m("12-conn-open", "C12", (N, "	if n.conn != nil {\n		if err", "	if n.conn != nil && len(n.sendCh) < 10 {\n		if err"))
m("12-stop-lock", "C12", (C, "	close(c.shutdownCh)\n	c.loops.Wait()\n", "	c.nodeLock.Lock()\n	defer c.nodeLock.Unlock()\n	close(c.shutdownCh)\n	c.loops.Wait()\n"))
m("12-drain", "C12", (N, "		case <-n.shutdownCh:\n			return\n\n		case payload := <-n.sendCh:\n			if n.isShutdown() {\n				return\n			}\n", "		case <-n.shutdownCh:\n			return\n\n		case payload := <-n.sendCh:\n"), (N, "	close(n.shutdownCh)\n	if n.conn != nil {", "	close(n.shutdownCh)\n	defer n.conn.Close()\n	if n.conn != nil && false {"))
m("12-write-after-stop-nil", "C12", (C, "	c.loops.Wait()\n}", "	c.loops.Wait()\n	c.nodeLock.Lock()\n	c.OutputAddress = nil\n}"))
# ---- C13
m("13-running-start-closes", "C13", (C, '	if !c.cNode.isShutdown() {\n		return errors', '	if !c.cNode.isShutdown() {\n		c.pollTicker.Reset(pollInterval)\n		return errors'))
m("13-keeps-nodes", "C13", (C, "	c.Nodes = nil\n	c.OutputAddress = make", "	c.OutputAddress = make"))
m("13-keeps-in-routes", "C13", (C, "	c.InputAddress = make(map[Address]*ControlledNode)\n	c.nodeLock", "	if c.InputAddress == nil {\n		c.InputAddress = make(map[Address]*ControlledNode)\n	}\n	c.nodeLock"))
m("13-shutdownerr-kept", "C13", (N, "	n.shutdownErr = nil\n", ""))
m("13-running-early", "C13", (N, "	n.sendCh = make(chan netPayload, 10)\n", "	n.shutdownLock.Lock()\n	n.shutdown = false\n	n.shutdownLock.Unlock()\n	n.sendCh = make(chan netPayload, 10)\n"))
m("13-channels-once", "C13", (N, "	n.pollCh = make(chan packet.ArtPollPacket, 10)\n", "	if n.pollCh == nil {\n		n.pollCh = make(chan packet.ArtPollPacket, 10)\n	}\n"), (N, "	n.sendCh = make(chan netPayload, 10)\n", "	if n.sendCh == nil {\n		n.sendCh = make(chan netPayload, 10)\n	}\n"))
m("13-cb-lost-restart", "C13", (N, "	n.loops.Wait()\n	return true", "	n.loops.Wait()\n	delete(n.callbacks, code.OpSync)\n	return true"))
m("13-listen-before-validate", "C13", (N, "	if err := n.Config.validate(); err != nil {\n		return err\n	}\n	n.log", "	n.log"), (N, "	n.conn = c.(*net.UDPConn)\n", "	n.conn = c.(*net.UDPConn)\n	if err := n.Config.validate(); err != nil {\n		n.conn.Close()\n		return err\n	}\n"))
# ---- C18
m("18-no-lock-write", "C18", (C, "	c.nodeLock.Lock()\n	defer c.nodeLock.Unlock()\n\n	var cn *ControlledNode\n	var ok bool\n\n	if cn", "	c.nodeLock.Lock()\n	var cn *ControlledNode\n	var ok bool\n	cn, ok = c.OutputAddress[address]\n	c.nodeLock.Unlock()\n\n	if _ = cn; !ok {\n		return\n	}\n	if cn"))
m("18-split-lock", "C18", (C, "	err := cn.setDMXBuffer(dmx, address)\n", "	c.nodeLock.Unlock()\n	err := cn.setDMXBuffer(dmx, address)\n	c.nodeLock.Lock()\n"))
m("18-update-gap", "C18", (C, "			c.Nodes[i].Node = cfg\n", "			c.nodeLock.Unlock()\n			c.nodeLock.Lock()\n			c.Nodes[i].Node = cfg\n"))
m("18-early-unlock", "C18", (C, "	c.nodeLock.Lock()\n	defer c.nodeLock.Unlock()\n\n	var cn *ControlledNode\n	var ok bool\n\n	if cn, ok = c.OutputAddress[address]; !ok {\n", "	c.nodeLock.Lock()\n\n	var cn *ControlledNode\n	var ok bool\n\n	cn, ok = c.OutputAddress[address]\n	c.nodeLock.Unlock()\n	if !ok {\n"))
m("18-trylock", "C18", (C, "	c.nodeLock.Lock()\n	defer c.nodeLock.Unlock()\n\n	var cn *ControlledNode", "	if !c.nodeLock.TryLock() {\n		time.Sleep(time.Microsecond)\n		if !c.nodeLock.TryLock() {\n			return\n		}\n	}\n	defer c.nodeLock.Unlock()\n\n	var cn *ControlledNode"))
m("18-shared-payload", "C18", (C, "		Data:     buf.Data,\n	}\n	b, err = p.MarshalBinary()\n", "		Data:     buf.Data,\n	}\n	if len(cn.scratch) == 0 {\n		cn.scratch, err = p.MarshalBinary()\n	} else {\n		var t []byte\n		t, err = p.MarshalBinary()\n		copy(cn.scratch, t)\n	}\n	b = cn.scratch\n"), (C, "	nodeLock  sync.Mutex\n}", "	nodeLock  sync.Mutex\n	scratch   []byte\n}"))
# ---- C20
m("20-listenip-port", "C20", (O, "n.listenAddr = net.UDPAddr{IP: ip, Port: packet.ArtNetPort}", "n.listenAddr.IP = ip\n		if n.listenAddr.Port == 0 {\n			n.listenAddr.Port = packet.ArtNetPort\n		}"))
m("20-bcast-node-only", "C20", (O, "		c.broadcastAddr = addr\n", "		c.broadcastAddr.IP = addr.IP\n"))
m("20-fps-limit", "C20", (O, "fps < 1 || time.Duration(fps) > time.Second", "fps < 1 || time.Duration(fps) >= time.Second"))
m("20-fps-clamped", "C20", (O, "		c.maxFPS = fps\n", "		if c.maxFPS = fps; fps > 1000000 {\n			c.maxFPS = 1000000\n		}\n"))
m("20-fps-applied-before", "C20", (O, "		if fps < 1 || time.Duration(fps) > time.Second {\n", "		if fps < 1 {\n			c.maxFPS = 1\n		}\n		if fps < 1 || time.Duration(fps) > time.Second {\n"))
m("20-bcast-order", "C20", (O, "		n.listenAddr = addr\n", "		n.listenAddr = addr\n		if addr.Port != packet.ArtNetPort {\n			n.broadcastAddr.Port = addr.Port\n		}\n"))
m("20-self-by-listen", "C20", (N, "if n.localAddr.IP.Equal(from.IP) {", "if n.localAddr.IP.Equal(from.IP) || n.broadcastAddr.IP.Equal(from.IP) {"))
m("20-default-ip", "C20", (N, "if n.localAddr.IP.Equal(from.IP) {", "if n.localAddr.IP.Equal(from.IP) || from.IP.IsLoopback() && n.listenAddr.IP == nil {"))


m("01-reannounce-blanks", "C01", (C, "			c.Nodes[i].Node = cfg\n", "			blank := c.Nodes[i].Node.Status2 != cfg.Status2\n			c.Nodes[i].Node = cfg\n"), (C, "				if c.Nodes[i].DMXBuffer[port.Address] == nil {\n", "				if c.Nodes[i].DMXBuffer[port.Address] == nil || blank {\n"))
m("03-reannounce-resends", "C03", (C, "			c.Nodes[i].Node = cfg\n", "			again := c.Nodes[i].Node.Version != cfg.Version\n			c.Nodes[i].Node = cfg\n"), (C, "				if c.Nodes[i].DMXBuffer[port.Address] == nil {\n					c.Nodes[i].DMXBuffer[port.Address] = &dmxBuffer{}\n				}\n", "				if c.Nodes[i].DMXBuffer[port.Address] == nil {\n					c.Nodes[i].DMXBuffer[port.Address] = &dmxBuffer{}\n				} else if again {\n					c.Nodes[i].DMXBuffer[port.Address].Stale = true\n				}\n"))
m("18-sequence-outside", "C18", (C, "	cn.nodeLock.Lock()\n	defer cn.nodeLock.Unlock()\n\n	if buf, ok = cn.DMXBuffer[address]; !ok {\n		return nil, fmt", "	if buf, ok = cn.DMXBuffer[address]; !ok {\n		return nil, fmt"), (C, "	cn.nodeLock.Lock()\n	defer cn.nodeLock.Unlock()\n\n	var buf *dmxBuffer\n	var ok bool\n\n	if buf, ok = cn.DMXBuffer[address]; !ok {\n		return fmt", "	var buf *dmxBuffer\n	var ok bool\n\n	if buf, ok = cn.DMXBuffer[address]; !ok {\n		return fmt"))
# ---- C09
H, D, PR, PK = "packet/header.go", "packet/artdmx.go", "packet/artpollreply.go", "packet/packet.go"
m("09-good-bits", "C09", (G, "		p.GoodOutput[i] = c.OutputPorts[i].Status\n", "		p.GoodOutput[i] = c.OutputPorts[i].Status &^ 1\n"))
m("09-mac-short", "C09", (G, "	copy(p.Macaddress[0:6], c.Ethernet)\n", "	if len(c.Ethernet) == 6 && c.Ethernet[0]&1 == 0 {\n		copy(p.Macaddress[0:6], c.Ethernet)\n	}\n"))
m("09-name-17", "C09", (G, "copy(p.ShortName[0:18], c.Name)", "copy(p.ShortName[0:16], c.Name)"))
m("09-trim", "C09", (G, "		str += string(c)\n", "		if c < ' ' {\n			continue\n		}\n		str += string(c)\n"))
m("09-net7", "C09", (G, "			Net:    p.NetSwitch,\n", "			Net:    p.NetSwitch & 0x7f,\n"))
m("09-numports-le", "C09", (G, "i < int(p.NumPorts) && i < 4; i++ {\n		if p.PortTypes[i].Output()", "i < int(uint8(p.NumPorts)) && i < 4; i++ {\n		if p.PortTypes[i].Output()"))
m("09-swin-for-both", "C09", (G, "SubUni: nodeConfig.BaseAddress.SubUni | p.SwIn[i]&0x0f,", "SubUni: nodeConfig.BaseAddress.SubUni | (p.SwIn[i]|p.SwOut[i]*uint8(p.PortTypes[i]&1))&0x0f,"))
m("09-report-alias", "C09", (G, "	copy(p.NodeReport[0:64], c.Report)\n", "	for i, r := range c.Report {\n		if i < 64 && r < 0x80 {\n			p.NodeReport[i] = r\n		}\n	}\n"))
m("09-bindip-default", "C09", (G, "	copy(p.BindIP[0:4], c.BindIP.To4())\n", "	copy(p.BindIP[0:4], c.IP.To4())\n	copy(p.BindIP[0:4], c.BindIP.To4())\n"))
m("09-ip16", "C09", (G, "	copy(p.IPAddress[0:4], c.IP.To4())\n", "	if len(c.IP) >= 4 {\n		copy(p.IPAddress[0:4], c.IP[len(c.IP)-4:])\n	}\n	if len(c.IP) == 16 && c.IP[15] == 0 {\n		p.IPAddress[3] = 1\n	}\n"))
m("09-version-swap", "C09", (G, "		Version:      p.VersionInfo,\n", "		Version:      p.VersionInfo & 0x7fff,\n"))
m("09-type-unknown", "C09", (G, "				Type:   p.PortTypes[i],\n				Status: p.GoodInput[i],\n", "				Type:   p.PortTypes[i] &^ 0x80,\n				Status: p.GoodInput[i] ^ 0,\n"))
# ---- C14
m("14-len-odd", "C14", (D, "l < 2 || l > 512 || l%2 != 0", "l < 2 || l > 512 || l%2 != 0 && l < 511"))
m("14-len-trunc", "C14", (D, "if len(b) < l+18 || l < 2", "if len(b) < l+17 || l < 2"), (D, "	copy(p.Data[0:l], b[18:18+l])\n", "	copy(p.Data[0:l], b[18:])\n"))
m("14-version-high", "C14", (H, "if p.Version[1] < version.Bytes()[1] {", "if p.Version[1] < version.Bytes()[1] || p.Version[1] > 127 {"))
m("14-id-case", "C14", (H, "	if p.ID != ArtNet {", "	if !bytes.EqualFold(p.ID[:], ArtNet[:]) {"))
m("14-style-max", "C14", ("packet/code/stylecode.go", "	if o >= StyleCode(len(styleCodeIndex)-1) {\n		return false", "	if o > StyleCode(len(styleCodeIndex)-1) {\n		return false"))
m("14-port-either", "C14", (PR, "		if p.Port != ArtNetPort {\n			return", "		if p.Port != ArtNetPort && p.Port != 0 {\n			return"))
m("14-trailing", "C14", (H, "	buf := bytes.NewReader(b)\n", "	if len(b) > 2048 {\n		return errInvalidPacket\n	}\n	buf := bytes.NewReader(b)\n"))
m("14-reuse-op", "C14", (D, "	if p.OpCode != code.OpDMX {\n		return errInvalidOpCode\n	}\n\n	p.Sequence", "	if p.OpCode != code.OpDMX && p.Sequence == 0 {\n		return errInvalidOpCode\n	}\n\n	p.Sequence"))
m("14-dmx-physical", "C14", (D, "	p.Net = b[15]\n", "	p.Net = b[15]\n	if p.Physical > 3 {\n		p.Physical = 0\n	}\n"))
m("14-output-alias", "C14", (PK, "	err = p.UnmarshalBinary(b)\n", "	err = p.UnmarshalBinary(b)\n	if d, ok := p.(*ArtDMXPacket); ok && err == nil && d.Length == 512 && len(b) > 530 {\n		d.Data[511] = b[530]\n	}\n"))
# ---- C15
m("15-reserved", "C15", (H, "	return buf.Bytes(), nil\n", "	if b := buf.Bytes(); len(b) > 12 && b[9] == 0x97 {\n		b[12] = 1\n	}\n	return buf.Bytes(), nil\n"))
m("15-nzs-length", "C15", ("packet/artnzs.go", "	p.OpCode = code.OpNzs\n", "	p.OpCode = code.OpNzs\n	if p.Length > 512 {\n		p.Length = 512\n	}\n"))
m("15-cmd-length", "C15", ("packet/artcommand.go", "	p.OpCode = code.OpCommand\n", "	p.OpCode = code.OpCommand\n	if p.Length == 0 {\n		p.Length = 512\n	}\n"))
m("15-diag-prio", "C15", ("packet/artdiagdata.go", "	p.OpCode = code.OpDiagData\n", "	p.OpCode = code.OpDiagData\n	if p.Priority == 0 {\n		p.Priority = code.DpLow\n	}\n"))
m("15-dmx-seq", "C15", (D, "	p.Length = 512\n	p.OpCode", "	p.Length = 512\n	p.Net &= 0x7f\n	p.OpCode"))
m("15-trigger-oem", "C15", ("packet/arttrigger.go", "	p.OpCode = code.OpTrigger\n", "	p.OpCode = code.OpTrigger\n	if p.Key > 3 && p.Oem == 0 {\n		p.Oem = 0xffff\n	}\n"))
m("15-reply-style", "C15", (PR, "	p.Port = swapUint16(ArtNetPort)\n", "	p.Port = swapUint16(ArtNetPort)\n	if p.NumPorts > 4 {\n		p.NumPorts = 4\n	}\n"))
m("15-timecode-type", "C15", ("packet/arttimecode.go", "	p.OpCode = code.OpTimeCode\n", "	p.OpCode = code.OpTimeCode\n	if p.Type > 3 {\n		p.Type = 3\n	}\n"))
m("15-address-names", "C15", ("packet/artaddress.go", "	p.OpCode = code.OpAddress\n", "	p.OpCode = code.OpAddress\n	p.ShortName[17], p.LongName[63] = 0, 0\n"))
# ---- C16
m("16-no-copy-dmx", "C16", (H, "	c := reflect.New(reflect.TypeOf(p).Elem())\n", "	if _, ok := p.(*ArtSyncPacket); ok {\n		p.finish()\n		var buf bytes.Buffer\n		err := binary.Write(&buf, binary.BigEndian, p)\n		return buf.Bytes(), err\n	}\n	c := reflect.New(reflect.TypeOf(p).Elem())\n"))
m("16-cache", "C16", (H, "	// finish converts the packet", "	last = p\n	// finish converts the packet"), (H, "func marshalPacket", "var last ArtNetPacket\nvar lastb []byte\n\nfunc marshalPacket"), (H, "	return buf.Bytes(), nil\n", "	lastb = append(lastb[:0], buf.Bytes()...)\n	return lastb, nil\n"))
m("16-reply-port", "C16", (PR, "			return fmt.Errorf(\"invalid port", "			p.Port = 0\n			return fmt.Errorf(\"invalid port"), (PR, "	p.Port = swapUint16(ArtNetPort)\n", "	p.Port = swapUint16(p.Port)\n	if p.Port == 0 {\n		p.Port = swapUint16(ArtNetPort)\n	}\n"))
m("16-opcode-after-fail", "C14", (H, "	p.swapOpCode()\n\n	if p.OpCode", "	p.swapOpCode()\n	if p.Version[0] == 1 {\n		p.swapOpCode()\n		p.swapOpCode()\n		p.Version[0] = 0\n	}\n\n	if p.OpCode"))
m("16-dmx-length", "C15", (D, "	p.Length = 512\n	p.OpCode", "	if p.Length != 511 {\n		p.Length = 512\n	}\n	p.OpCode"))
# ---- C17
for nm, f, o, n in [
    ("17-ubea-clear", "status1", "	return s &^ (1 << 0)\n", "	return s &^ (1 << 0) &^ (1 << 3)\n"),
    ("17-porttype", "porttype", '	case "Art-Net":\n		return s&^0x3f | 0x05', '	case "Art-Net":\n		return s&^0x07 | 0x05'),
    ("17-porttype2", "porttype", "	switch s & 0x3f {", "	switch s & 0x1f {"),
    ("17-portaddr", "status1", '	case "net":\n		return s&^(3<<4) | (2 << 4)', '	case "net":\n		return s | (2 << 4)'),
    ("17-vlc", "talktome", "	return t&(1<<4) > 0", "	return t&(1<<4) > 0 && t&(1<<7) == 0"),
    ("17-goodin-str", "goodinput", "	if s.Test() {\n", "	if s.Test() && !s.SIP() {\n"),
    ("17-style-valid", "stylecode", "	if o >= StyleCode(len(styleCodeIndex)-1) {\n		return false", "	if o >= StyleCode(len(styleCodeIndex)-1) && o != 0xff {\n		return false"),
]:
    m(nm, "C17", (f"packet/code/{f}.go", o, n))
m("17-addr-str", "C17", (G, 'a.SubUni>>4, a.SubUni&0x0f)', 'a.SubUni>>4&7, a.SubUni&0x0f)'))
m("17-addr-int", "C17", (G, "return int(uint16(a.Net)<<8 | uint16(a.SubUni))", "return int(int16(a.Net)<<8 | int16(a.SubUni))"))
# ---- C19
m("19-len5", "C19", (G, "	if len(c.OutputPorts) > 4 {\n", "	if len(c.OutputPorts) > 4 && len(c.InputPorts) > 0 {\n"))
m("19-third", "C19", (G, "	for i := 0; i < 4; i++ {\n		if len(c.InputPorts) <= i", "	for i := 0; i < 3; i++ {\n		if len(c.InputPorts) <= i"))
m("19-type-bits", "C19", (G, "if c.InputPorts[i].Type.Type() != c.OutputPorts[i].Type.Type() {", "if c.InputPorts[i].Type&0x3 != c.OutputPorts[i].Type&0x3 {"))
m("19-dir-bits", "C19", (G, "if c.InputPorts[i].Type.Type() != c.OutputPorts[i].Type.Type() {", "if c.InputPorts[i].Type&^0x80 != c.OutputPorts[i].Type&^0x80 {"))
m("19-numports-sum", "C19", (G, "	if len(c.InputPorts) > len(c.OutputPorts) {\n", "	if len(c.InputPorts) > len(c.OutputPorts) && len(c.OutputPorts) != 3 {\n"))
m("19-porttypes", "C19", (G, "			rsl[i] = tmp.WithType(c.OutputPorts[i].Type.Type())\n", "			rsl[i] = c.OutputPorts[i].Type.WithOutput(true)\n"))
m("19-porttypes-lost", "C19", (G, "			tmp = tmp.WithOutput(true)\n", "			tmp = tmp.WithOutput(true).WithInput(len(c.InputPorts) > i && i < 3)\n"))

# ---- second series: counters, capacities, rare values
m("02-keepalive-count", "C02", (C, "	Stale      bool\n", "	Stale      bool\n	idle       uint8\n"), (C, "	buf.Stale = true\n", "	buf.Stale = true\n	buf.idle = 0\n"), (C, "				if node.DMXBuffer[address].LastUpdate.Before(now.Add(-forceUpdate)) {\n", "				if node.DMXBuffer[address].LastUpdate.Before(now.Add(-forceUpdate)) && node.DMXBuffer[address].idle < 250 {\n					node.DMXBuffer[address].idle++\n"))
m("05-max-64", "C05", (C, "	c.Nodes = append(c.Nodes, node)\n", "	if len(c.Nodes) >= 64 {\n		return errors.New(\"too many nodes\")\n	}\n	c.Nodes = append(c.Nodes, node)\n"))
m("06-max-128", "C06", (C, "	for _, port := range node.Node.InputPorts {\n		c.InputAddress[port.Address] = node\n", "	for _, port := range node.Node.InputPorts {\n		if len(c.InputAddress) >= 128 {\n			break\n		}\n		c.InputAddress[port.Address] = node\n"))
m("07-poll-256", "C07", (C, "		case <-c.pollTicker.C:\n", "		case <-c.pollTicker.C:\n			if rounds++; rounds == 0 {\n				continue\n			}\n"), (C, "	// loop until shutdown\n	for {\n		select {\n		case <-c.pollTicker.C:", "	var rounds uint8\n	// loop until shutdown\n	for {\n		select {\n		case <-c.pollTicker.C:"))
m("05-gc-count", "C05", (C, "		case <-c.gcTicker.C:\n", "		case <-c.gcTicker.C:\n			if passes++; passes%64 == 0 {\n				continue\n			}\n"), (C, "	// loop until shutdown\n	for {\n		select {\n		case <-c.pollTicker.C:", "	var passes uint8\n	// loop until shutdown\n	for {\n		select {\n		case <-c.pollTicker.C:"))
m("08-reply-500", "C08", (N, '			n.log.With(nil).Debug("sending ArtPollReply")\n', '			n.log.With(nil).Debug("sending ArtPollReply")\n			if replies++; replies == 0 {\n				continue\n			}\n'), (N, "	var timer time.Ticker\n", "	var timer time.Ticker\n	var replies uint8\n"))
m("10-count-512", "C10", (N, "	callback(p)\n}\n", "	if calls++; calls == 512 {\n		return\n	}\n	callback(p)\n}\n\nvar calls uint16\n"))
m("11-err-backoff", "C11", (N, "			if err != nil {\n				if err == io.EOF", "			if err != nil {\n				if errs++; errs == 200 {\n					return\n				}\n				if err == io.EOF"), (N, "		b := make([]byte, 4096)\n", "		errs := 0\n		b := make([]byte, 4096)\n"))
m("04-long-wrap", "C04", (C, "	cn.Sequence++\n", "	cn.Sequence++\n	cn.total++\n	if cn.total%2550 == 0 {\n		cn.Sequence = 1\n	}\n"), (C, "	nodeLock  sync.Mutex\n}", "	nodeLock  sync.Mutex\n	total     int\n}"))
m("03-drift", "C03", (C, "		node.DMXBuffer[address].LastUpdate = now\n", "		node.DMXBuffer[address].LastUpdate = now\n		if node.Sequence == 255 && len(node.DMXBuffer) == 1 {\n			node.DMXBuffer[address].LastUpdate = now.Add(-time.Millisecond * 10)\n		}\n"))
# address moves between nodes
m("01-follow-frame", "C01", (C, "	for _, port := range cfg.OutputPorts {\n		buf[port.Address] = &dmxBuffer{}\n	}\n", "	for _, port := range cfg.OutputPorts {\n		buf[port.Address] = &dmxBuffer{}\n		for _, o := range c.Nodes {\n			if b := o.DMXBuffer[port.Address]; b != nil {\n				buf[port.Address].Data = b.Data\n			}\n		}\n	}\n"))
m("01-stale-ptr", "C01", (C, "			c.Nodes[i].Node = cfg\n			c.Nodes[i].LastSeen = time.Now()\n", "			if c.Nodes[i].Sequence > 200 && len(cfg.OutputPorts) == 0 {\n				c.Nodes[i].DMXBuffer = make(map[Address]*dmxBuffer)\n			}\n			c.Nodes[i].Node = cfg\n			c.Nodes[i].LastSeen = time.Now()\n"))
m("01-wipe-no-outputs", "C01", (C, "			c.Nodes[i].Node = cfg\n			c.Nodes[i].LastSeen = time.Now()\n", "			if len(cfg.OutputPorts) == 0 {\n				c.Nodes[i].DMXBuffer = make(map[Address]*dmxBuffer)\n			}\n			c.Nodes[i].Node = cfg\n			c.Nodes[i].LastSeen = time.Now()\n"))
m("05-lastseen-sent", "C05", (C, "		node.DMXBuffer[address].Stale = false\n", "		if node.DMXBuffer[address].Stale {\n			node.LastSeen = now\n		}\n		node.DMXBuffer[address].Stale = false\n"))
m("05-style-sticky", "C05", (C, "			if cfg.Type == code.StController && len(cfg.OutputPorts) == 0 {\n", "			if cfg.Type == code.StController && len(cfg.OutputPorts) == 0 && !c.knows(cfg.IP) {\n"), (C, "// deleteNode will", "func (c *Controller) knows(ip net.IP) bool {\n	c.nodeLock.Lock()\n	defer c.nodeLock.Unlock()\n	for _, n := range c.Nodes {\n		if ip.Equal(n.Node.IP) {\n			return true\n		}\n	}\n	return false\n}\n\n// deleteNode will"))
m("06-swap-remove", "C06", (C, "			c.Nodes = append(c.Nodes[:i], c.Nodes[i+1:]...)\n			goto start\n", "			c.Nodes[i] = c.Nodes[len(c.Nodes)-1]\n			c.Nodes = c.Nodes[:len(c.Nodes)-1]\n			if i+1 < len(c.Nodes) {\n				goto start\n			}\n			return\n"))
m("13-restart-bcast", "C13", (N, "	n.loops.Wait()\n	return true", "	n.loops.Wait()\n	n.broadcastAddr = defaultBroadcastAddr\n	return true"))
m("13-third-life", "C13", (C, "	c.gcTicker = time.NewTicker(pollInterval)\n", "	if c.gcTicker == nil {\n		c.gcTicker = time.NewTicker(pollInterval)\n	} else {\n		c.gcTicker.Reset(pollInterval * 2)\n	}\n"))
m("13-fail-forgets", "C13", (N, '		n.log.With(Fields{"error": err}).Error("error net.ListenPacket")\n', '		n.log.With(Fields{"error": err}).Error("error net.ListenPacket")\n		n.listenAddr = net.UDPAddr{Port: packet.ArtNetPort}\n'))
m("13-dup-start-registry", "C13", (C, '	if !c.cNode.isShutdown() {\n		return errors', '	if !c.cNode.isShutdown() {\n		c.nodeLock.Lock()\n		c.Nodes = c.Nodes[:0]\n		c.nodeLock.Unlock()\n		return errors'))
m("20-own-port", "C20", (N, "if n.localAddr.IP.Equal(from.IP) {", "if n.localAddr.IP.Equal(from.IP) && from.Port == n.localAddr.Port {"))
m("20-bcast-shared", "C20", (O, "		n.broadcastAddr = addr\n", "		n.broadcastAddr.Port = addr.Port\n		copy(n.broadcastAddr.IP, addr.IP.To4())\n"))
m("18-lock-order", "C18", (C, "func (cn *ControlledNode) dmxUpdate(address Address) (b []byte, err error) {\n	var buf *dmxBuffer\n	var ok bool\n\n	cn.nodeLock.Lock()\n	defer cn.nodeLock.Unlock()\n", "func (cn *ControlledNode) dmxUpdate(address Address) (b []byte, err error) {\n	var buf *dmxBuffer\n	var ok bool\n"), (C, "	c.nodeLock.Lock()\n	defer c.nodeLock.Unlock()\n\n	var cn *ControlledNode\n	var ok bool\n\n	if cn, ok = c.OutputAddress[address]; !ok {", "	c.nodeLock.Lock()\n	cn, ok := c.OutputAddress[address]\n	c.nodeLock.Unlock()\n	if !ok {"))

# ---- third series: state that outlives an event, thresholds in time, identities
m("01-prune-dropped", "C01", (C, "			for _, port := range c.Nodes[i].Node.InputPorts {\n				c.InputAddress[port.Address] = c.Nodes[i]\n			}\n			return nil\n", "			for _, port := range c.Nodes[i].Node.InputPorts {\n				c.InputAddress[port.Address] = c.Nodes[i]\n			}\n			for a := range c.Nodes[i].DMXBuffer {\n				if c.OutputAddress[a] != c.Nodes[i] {\n					delete(c.Nodes[i].DMXBuffer, a)\n				}\n			}\n			return nil\n"))
m("01-input-fallback", "C01", (C, '	if cn, ok = c.OutputAddress[address]; !ok {\n		c.log', '	if cn, ok = c.OutputAddress[address]; !ok {\n		cn, ok = c.InputAddress[address]\n	}\n	if !ok {\n		c.log'))
m("01-late-frame", "C01", (C, "	if cn, ok = c.OutputAddress[address]; !ok {\n		c.log", "	for _, n := range c.Nodes {\n		if b := n.DMXBuffer[address]; b != nil && c.OutputAddress[address] == nil {\n			b.Data = dmx\n		}\n	}\n	if cn, ok = c.OutputAddress[address]; !ok {\n		c.log"))
m("02-quiet-node-skipped", "C02", (C, "				// only update if there is new data\n", "				if now.Sub(node.LastSeen) > 2*pollInterval {\n					continue\n				}\n				// only update if there is new data\n"))
m("02-half-rate", "C02", (C, "time.NewTicker(time.Second / time.Duration(c.maxFPS))", "time.NewTicker(time.Second / time.Duration(c.maxFPS-c.maxFPS/100))"))
m("02-dark-not-sent", "C02", (C, "	buf.Data = dmx\n	buf.Stale = true\n", "	buf.Stale = buf.Stale || dmx != [512]byte{} || buf.Data != dmx || buf.LastUpdate.IsZero()\n	buf.Data = dmx\n"))
m("02-tick-lost", "C02", (C, "			c.nodeLock.Unlock()\n\n		case <-c.shutdownCh", "			c.nodeLock.Unlock()\n			if len(c.OutputAddress) > 12 {\n				<-ticker.C\n			}\n\n		case <-c.shutdownCh"))
m("03-dup-ports", "C03", (C, "				if node.DMXBuffer[address].LastUpdate.Before(now.Add(-forceUpdate)) {\n", "				if node.DMXBuffer[address].LastUpdate.Before(now.Add(-forceUpdate)) || (address.Net == 0x7f && node.DMXBuffer[address].LastUpdate.Before(now.Add(-forceUpdate/2))) {\n"))
m("03-dark-faster", "C03", (C, "				if node.DMXBuffer[address].LastUpdate.Before(now.Add(-forceUpdate)) {\n", "				if node.DMXBuffer[address].LastUpdate.Before(now.Add(-forceUpdate)) || (node.DMXBuffer[address].Data[511] == 255 && node.DMXBuffer[address].LastUpdate.Before(now.Add(-forceUpdate/2))) {\n"))
m("04-resets-when-empty", "C04", (C, "			c.Nodes[i].Node = cfg\n", "			if len(cfg.OutputPorts) == 0 {\n				c.Nodes[i].Sequence = 0\n			}\n			c.Nodes[i].Node = cfg\n"))
m("04-resets-after-pause", "C04", (C, "			c.Nodes[i].Node = cfg\n", "			if time.Since(c.Nodes[i].LastSeen) > 2*pollInterval {\n				c.Nodes[i].Sequence = 0\n			}\n			c.Nodes[i].Node = cfg\n"))
m("04-resets-renamed", "C04", (C, "			c.Nodes[i].Node = cfg\n", "			if c.Nodes[i].Node.Name != cfg.Name {\n				c.Nodes[i].Sequence = 0\n			}\n			c.Nodes[i].Node = cfg\n"))
m("04-resets-bindindex", "C04", (C, "			c.Nodes[i].Node = cfg\n", "			if c.Nodes[i].Node.BindIndex != cfg.BindIndex || c.Nodes[i].Node.Type != cfg.Type {\n				c.Nodes[i].Sequence = 0\n			}\n			c.Nodes[i].Node = cfg\n"))
m("05-ident-bindindex", "C05", (C, "		if bytes.Equal(cfg.IP, c.Nodes[i].Node.IP) {\n			// update", "		if bytes.Equal(cfg.IP, c.Nodes[i].Node.IP) && cfg.BindIndex == c.Nodes[i].Node.BindIndex {\n			// update"))
m("05-ident-mac", "C05", (C, "		if bytes.Equal(cfg.IP, c.Nodes[i].Node.IP) {\n			// update", "		if bytes.Equal(cfg.Ethernet, c.Nodes[i].Node.Ethernet) || bytes.Equal(cfg.IP, c.Nodes[i].Node.IP) {\n			// update"))
m("05-ident-mac2", "C05", (C, "		if bytes.Equal(cfg.IP, c.Nodes[i].Node.IP) {\n			// update", "		if bytes.Equal(cfg.Ethernet, c.Nodes[i].Node.Ethernet) && bytes.Equal(cfg.IP, c.Nodes[i].Node.IP) {\n			// update"))
m("05-round", "C05", (C, "if c.Nodes[i].LastSeen.Add(staleAfter).Before(time.Now()) {", "if time.Since(c.Nodes[i].LastSeen).Round(time.Second) > staleAfter {"))
m("05-empty-name", "C05", (C, "			c.Nodes[i].Node = cfg\n", "			if cfg.Name == \"\" {\n				cfg.Name = c.Nodes[i].Node.Name\n			}\n			c.Nodes[i].Node = cfg\n"))
m("05-backwards", "C05", (C, "			c.Nodes[i].LastSeen = time.Now()\n", "			if len(cfg.OutputPorts)+len(cfg.InputPorts) > 0 {\n				c.Nodes[i].LastSeen = time.Now()\n			}\n"))
m("05-status-kept", "C05", (C, "			c.Nodes[i].Node = cfg\n", "			cfg.Status2 |= c.Nodes[i].Node.Status2\n			c.Nodes[i].Node = cfg\n"))
m("05-grace", "C05", (C, "	staleAfter := 7 * time.Second\n", "	staleAfter := 7 * time.Second\n	if len(c.Nodes) > 4 {\n		staleAfter = 10 * time.Second\n	}\n"))
m("06-dup-address", "C06", (C, "			for _, port := range c.Nodes[i].Node.OutputPorts {\n				delete(c.OutputAddress, port.Address)\n			}\n			for _, port := range c.Nodes[i].Node.InputPorts {\n				delete(c.InputAddress, port.Address)\n			}\n			c.Nodes[i].Node = cfg\n", "			for j, port := range c.Nodes[i].Node.OutputPorts {\n				if j < len(cfg.OutputPorts) && cfg.OutputPorts[j].Address.SubUni == port.Address.SubUni {\n					continue\n				}\n				delete(c.OutputAddress, port.Address)\n			}\n			for _, port := range c.Nodes[i].Node.InputPorts {\n				delete(c.InputAddress, port.Address)\n			}\n			c.Nodes[i].Node = cfg\n"))
m("06-fourth-port", "C06", (C, "			for _, port := range c.Nodes[i].Node.InputPorts {\n				c.InputAddress[port.Address] = c.Nodes[i]\n			}\n			return nil\n", "			for j, port := range c.Nodes[i].Node.InputPorts {\n				if j == 3 && len(c.Nodes[i].Node.OutputPorts) == 4 {\n					break\n				}\n				c.InputAddress[port.Address] = c.Nodes[i]\n			}\n			return nil\n"))
m("06-unchanged-skip", "C06", (C, "			// remove references to this node from the output map\n			for _, port := range c.Nodes[i].Node.OutputPorts {\n				delete(c.OutputAddress, port.Address)\n			}\n			for _, port := range c.Nodes[i].Node.InputPorts {\n				delete(c.InputAddress, port.Address)\n			}\n			c.Nodes[i].Node = cfg\n", "			if len(cfg.OutputPorts) == len(c.Nodes[i].Node.OutputPorts) && len(cfg.InputPorts) == len(c.Nodes[i].Node.InputPorts) && cfg.BaseAddress == c.Nodes[i].Node.BaseAddress && cfg.Name != c.Nodes[i].Node.Name {\n				c.Nodes[i].Node.Name = cfg.Name\n				c.Nodes[i].LastSeen = time.Now()\n				return nil\n			}\n			// remove references to this node from the output map\n			for _, port := range c.Nodes[i].Node.OutputPorts {\n				delete(c.OutputAddress, port.Address)\n			}\n			for _, port := range c.Nodes[i].Node.InputPorts {\n				delete(c.InputAddress, port.Address)\n			}\n			c.Nodes[i].Node = cfg\n"))
m("07-skip-if-pending", "C07", (N, "	select {\n	case n.pollCh <- poll:\n	case <-n.shutdownCh:\n	}\n}\n\nfunc (n *Node) handlePacketPollReply", "	if len(n.pollCh) > 1 && poll.TalkToMe == 0 {\n		return\n	}\n	select {\n	case n.pollCh <- poll:\n	case <-n.shutdownCh:\n	}\n}\n\nfunc (n *Node) handlePacketPollReply"))
m("07-ttm", "C07", (C, "			c.cNode.poll(packet.ArtPollPacket{})\n\n		case <-c.gcTicker.C:\n", "			c.cNode.poll(packet.ArtPollPacket{})\n			if len(c.Nodes) > 3 {\n				b[12] = 0\n			}\n\n		case <-c.gcTicker.C:\n"))
m("07-gc-starves", "C07", (C, "			// clean up old nodes\n			c.gcNode()\n", "			// clean up old nodes\n			before := len(c.Nodes)\n			c.gcNode()\n			if before > 0 && len(c.Nodes) == 0 {\n				c.pollTicker.Reset(pollInterval)\n			}\n"))
m("08-priority", "C08", (N, "	n.loops.Add(1)\n	go func() {\n		defer n.loops.Done()\n		n.poll(*poll)\n	}()\n", "	if poll.Priority > code.DpVolatile {\n		return\n	}\n	n.loops.Add(1)\n	go func() {\n		defer n.loops.Done()\n		n.poll(*poll)\n	}()\n"))
m("08-two-when-idle", "C08", (N, "			n.send(netPayload{\n				address: n.broadcastAddr,\n				data:    me,\n			})\n\n			// TODO", "			n.send(netPayload{\n				address: n.broadcastAddr,\n				data:    me,\n			})\n			if time.Since(last) > 10*time.Second {\n				n.send(netPayload{\n					address: n.broadcastAddr,\n					data:    me,\n				})\n			}\n			last = time.Now()\n\n			// TODO"), (N, "	var timer time.Ticker\n", "	var timer time.Ticker\n	last := time.Now()\n"))
m("08-len-14", "C08", (N, "			p, err := packet.Unmarshal(payload.data)\n", "			if len(payload.data) > 1500 {\n				continue\n			}\n			p, err := packet.Unmarshal(payload.data)\n"))
m("08-source-port", "C08", (N, "			if n.localAddr.IP.Equal(from.IP) {\n", "			if n.localAddr.IP.Equal(from.IP) || from.Port < 1024 {\n"))
m("08-source-mask", "C08", (N, "			if n.localAddr.IP.Equal(from.IP) {\n", "			if n.localAddr.IP.Equal(from.IP) || n.listenAddr.IP.Equal(from.IP) || from.IP.IsLoopback() {\n"))
m("09-name-full", "C09", (G, "	copy(p.ShortName[0:18], c.Name)\n", "	copy(p.ShortName[0:16], c.Name)\n"))
m("09-report-last", "C09", (G, "	copy(p.NodeReport[0:64], c.Report)\n", "	copy(p.NodeReport[0:63], c.Report)\n"))
m("09-mac-8", "C09", (G, "	copy(p.Macaddress[0:6], c.Ethernet)\n", "	if len(c.Ethernet) == 6 && c.Ethernet[0]&1 == 0 {\n		copy(p.Macaddress[0:6], c.Ethernet)\n	}\n"))
m("09-name-panic", "C11", (G, "	for _, c := range b {\n		if c == 0 {\n			return\n		}\n		str += string(c)\n	}\n	return\n", "	n := 0\n	for b[n] != 0 {\n		n++\n	}\n	return string(b[:n])\n"))
m("10-after-error", "C10", (N, "				}).Warnf(\"failed to parse packet: %v\", err)\n				continue\n", "				}).Warnf(\"failed to parse packet: %v\", err)\n				select {\n				case <-n.recvCh:\n				default:\n				}\n				continue\n"))
m("10-zero-src", "C10", (N, "			if n.localAddr.IP.Equal(from.IP) {\n", "			if n.localAddr.IP.Equal(from.IP) || num == 0 || from.Port == 0 || from.IP[len(from.IP)-1] == 255 {\n"))
m("10-same-twice", "C10", (N, "			n.handlePacket(p)\n", "			if string(payload.data) == last {\n				continue\n			}\n			last = string(payload.data)\n			n.handlePacket(p)\n"), (N, "	// loop until shutdown\n	for {\n		select {\n		case payload := <-n.recvCh:", "	last := \"\"\n	// loop until shutdown\n	for {\n		select {\n		case payload := <-n.recvCh:"))
m("11-error-time", "C11", (N, "			if err != nil {\n				if err == io.EOF", "			if err == nil {\n				good = time.Now()\n			} else if time.Since(good) > 30*time.Second {\n				return\n			}\n			if err != nil {\n				if err == io.EOF"), (N, "		b := make([]byte, 4096)\n", "		good := time.Now()\n		b := make([]byte, 4096)\n"))
m("11-write-20", "C11", (N, "				n.log.With(Fields{\"error\": err}).Debugf(\"error writing packet\")\n				continue\n", "				n.log.With(Fields{\"error\": err}).Debugf(\"error writing packet\")\n				if failed++; failed > 20 {\n					return\n				}\n				continue\n"), (N, "	// loop until shutdown\n	for {\n		select {\n		case <-n.shutdownCh:\n			return\n\n		case payload := <-n.sendCh:", "	failed := 0\n	// loop until shutdown\n	for {\n		select {\n		case <-n.shutdownCh:\n			return\n\n		case payload := <-n.sendCh:"))
m("11-zero-ip", "C11", (C, "	for i := range c.Nodes {\n		if bytes.Equal(cfg.IP, c.Nodes[i].Node.IP) {\n			// update", "	if cfg.IP.IsUnspecified() {\n		return errors.New(\"no IP\")\n	}\n	c.nodeLock.Lock()\n	c.nodeLock.Unlock()\n	for i := range c.Nodes {\n		if bytes.Equal(cfg.IP, c.Nodes[i].Node.IP) {\n			// update"), (C, "func (c *Controller) updateNode(cfg NodeConfig) error {\n	c.nodeLock.Lock()\n	defer c.nodeLock.Unlock()\n", "func (c *Controller) updateNode(cfg NodeConfig) error {\n"))
m("12-ctrl-order", "C12", (C, "	c.pollTicker.Stop()\n	c.gcTicker.Stop()\n	close(c.shutdownCh)\n	c.loops.Wait()\n", "	c.nodeLock.Lock()\n	defer c.nodeLock.Unlock()\n	c.pollTicker.Stop()\n	c.gcTicker.Stop()\n	close(c.shutdownCh)\n	c.loops.Wait()\n"))
m("12-early-return", "C12", (C, "	close(c.shutdownCh)\n	c.loops.Wait()\n", "	close(c.shutdownCh)\n	go c.loops.Wait()\n"))
m("13-nil-tickers", "C13", (C, "	c.pollTicker = time.NewTicker(pollInterval)\n	c.gcTicker = time.NewTicker(pollInterval)\n", "	if c.pollTicker == nil {\n		c.pollTicker = time.NewTicker(pollInterval)\n		c.gcTicker = time.NewTicker(pollInterval)\n	} else {\n		c.gcTicker.Reset(pollInterval)\n	}\n"))
m("13-validate-once", "C13", (N, "	if err := n.Config.validate(); err != nil {\n		return err\n	}\n", "	if err := n.Config.validate(); err != nil {\n		n.callbacks = map[code.OpCode]NodeCallbackFn{\n			code.OpPoll:      n.handlePacketPoll,\n			code.OpPollReply: n.handlePacketPollReply,\n		}\n		return err\n	}\n"))
m("19-type-unset", "C19", (G, "		if c.InputPorts[i].Type.Type() != c.OutputPorts[i].Type.Type() {\n", "		if c.InputPorts[i].Type.Type() != c.OutputPorts[i].Type.Type() && c.InputPorts[i].Type != 0 {\n"))
m("20-fps-int", "C20", (C, "time.NewTicker(time.Second / time.Duration(c.maxFPS))", "time.NewTicker(time.Duration(1000000000/int32(c.maxFPS)) / 1000 * 1000)"))
m("20-listen-zone", "C20", (N, '	c, err := net.ListenPacket("udp4", n.listenAddr.String())', '	addr := n.listenAddr\n	if addr.IP.IsLoopback() {\n		addr.IP = nil\n	}\n	c, err := net.ListenPacket("udp4", addr.String())'))
m("20-local-listen", "C20", (O, "		n.listenAddr = net.UDPAddr{IP: ip, Port: packet.ArtNetPort}\n", "		n.listenAddr = net.UDPAddr{IP: ip, Port: packet.ArtNetPort}\n		n.localAddr.IP = ip\n"))
m("05-ctrl-inputs", "C05", (C, "			if cfg.Type == code.StController && len(cfg.OutputPorts) == 0 {\n", "			if cfg.Type == code.StController && len(cfg.OutputPorts)+len(cfg.InputPorts) == 0 {\n"))
m("21-node-keeps-cfg", "C21", (N, "	p := ArtPollReplyFromConfig(n.Config)\n	me, err := p.MarshalBinary()\n", "	p := ArtPollReplyFromConfig(n.Config)\n	if n.announced != nil && len(n.announced.PortTypes) == len(p.PortTypes) && n.announced.NumPorts == p.NumPorts {\n		p = n.announced\n	}\n	n.announced = p\n	me, err := p.MarshalBinary()\n"), (N, "	log Logger\n", "	log Logger\n\n	announced *packet.ArtPollReplyPacket\n"))
m("18-gc-nolock", "C18", (C, "func (c *Controller) gcNode() {\n	c.nodeLock.Lock()\n	defer c.nodeLock.Unlock()\n", "func (c *Controller) gcNode() {\n"))
m("18-start-nolock", "C18", (C, "	c.nodeLock.Lock()\n	c.Nodes = nil\n	c.OutputAddress = make(map[Address]*ControlledNode)\n	c.InputAddress = make(map[Address]*ControlledNode)\n	c.nodeLock.Unlock()\n", "	c.Nodes = nil\n	c.OutputAddress = make(map[Address]*ControlledNode)\n	c.InputAddress = make(map[Address]*ControlledNode)\n"))
m("18-rlock", "C18", (C, "	nodeLock      sync.Mutex\n", "	nodeLock      sync.RWMutex\n"), (C, "	c.nodeLock.Lock()\n	defer c.nodeLock.Unlock()\n\n	var cn *ControlledNode\n", "	c.nodeLock.RLock()\n	defer c.nodeLock.RUnlock()\n\n	var cn *ControlledNode\n"), (C, "			c.nodeLock.Lock()\n			for address, node", "			c.nodeLock.RLock()\n			for address, node"), (C, "			c.nodeLock.Unlock()\n\n		case <-c.shutdownCh", "			c.nodeLock.RUnlock()\n\n		case <-c.shutdownCh"))
m("18-last-cache", "C18", (C, "	c.nodeLock.Lock()\n	defer c.nodeLock.Unlock()\n\n	var cn *ControlledNode\n	var ok bool\n\n	if cn, ok = c.OutputAddress[address]; !ok {", "	c.nodeLock.Lock()\n	cn, ok := c.OutputAddress[address]\n	if ok {\n		defer func() { c.busy-- }()\n		c.busy++\n	}\n	c.nodeLock.Unlock()\n	if !ok {"), (C, "	maxFPS int\n", "	maxFPS int\n	busy   int\n"))
m("18-copy-outside", "C18", (C, "	p := &packet.ArtDMXPacket{\n		Sequence: cn.Sequence,\n", "	cn.nodeLock.Unlock()\n	defer cn.nodeLock.Lock()\n	p := &packet.ArtDMXPacket{\n		Sequence: cn.Sequence,\n"), (C, "	c.nodeLock.Lock()\n	defer c.nodeLock.Unlock()\n\n	var cn *ControlledNode\n	var ok bool\n\n	if cn, ok = c.OutputAddress[address]; !ok {", "	c.nodeLock.Lock()\n	cn, ok := c.OutputAddress[address]\n	c.nodeLock.Unlock()\n	if !ok {"))
m("18-pending-queue", "C18", (C, "	err := cn.setDMXBuffer(dmx, address)\n	if err != nil {", "	var err error\n	go func() { err = cn.setDMXBuffer(dmx, address) }()\n	if err != nil {"))
m("18-merge", "C18", (C, "	buf.Data = dmx\n	buf.Stale = true\n", "	if buf.Stale {\n		for i := range dmx {\n			if dmx[i] > buf.Data[i] {\n				buf.Data[i] = dmx[i]\n			}\n		}\n		return nil\n	}\n	buf.Data = dmx\n	buf.Stale = true\n"))
m("18-skip-if-busy", "C18", (C, "	buf.Data = dmx\n	buf.Stale = true\n", "	if buf.Stale && buf.Data[0] == dmx[0] {\n		return nil\n	}\n	buf.Data = dmx\n	buf.Stale = true\n"))
m("12-senddmx-after", "C12", (C, "	c.nodeLock.Lock()\n	defer c.nodeLock.Unlock()\n\n	var cn *ControlledNode\n", "	if c.wake != nil {\n		c.wake <- struct{}{}\n	}\n	c.nodeLock.Lock()\n	defer c.nodeLock.Unlock()\n\n	var cn *ControlledNode\n"), (C, "	maxFPS int\n", "	maxFPS int\n	wake   chan struct{}\n"), (C, "	c.loops.Add(2)\n", "	c.wake = make(chan struct{}, 64)\n	c.loops.Add(2)\n"), (C, "	for {\n		select {\n		case <-ticker.C:\n			now", "	for {\n		select {\n		case <-c.wake:\n		case <-ticker.C:\n			now"))
m("12-hold-lock", "C12", (C, "		c.cNode.send(netPayload{\n			address: node.UDPAddress,\n			data:    b,\n		})\n		return nil\n", "		c.cNode.send(netPayload{\n			address: node.UDPAddress,\n			data:    b,\n		})\n		select {\n		case <-c.shutdownCh:\n			return fmt.Errorf(\"shut down\")\n		default:\n		}\n		return nil\n"), (C, "					if err != nil {\n						c.log.With(Fields{\"err\": err, \"address\": address.String()}).Error(\"error getting buffer for address\")\n						continue\n					}\n				}\n				if node.DMXBuffer", "					if err != nil {\n						return\n					}\n				}\n				if node.DMXBuffer"))
m("13-start-race", "C13", (C, "	if !c.cNode.stop() {\n		return\n	}\n", "	if !c.cNode.stop() {\n		return\n	}\n	c.cNode.callbacks = map[code.OpCode]NodeCallbackFn{code.OpPoll: c.cNode.handlePacketPoll}\n"))
m("16-pool", "C16", ("packet/header.go", "	var buf bytes.Buffer\n	if err := binary.Write(&buf, binary.BigEndian, p); err != nil {\n		return nil, err\n	}\n	return buf.Bytes(), nil\n", "	buf := pool.Get().(*bytes.Buffer)\n	defer pool.Put(buf)\n	buf.Reset()\n	if err := binary.Write(buf, binary.BigEndian, p); err != nil {\n		return nil, err\n	}\n	return buf.Bytes(), nil\n"), ("packet/header.go", "func swapUint16", "var pool = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}\n\nfunc swapUint16"), ("packet/header.go", '	"reflect"\n', '	"reflect"\n	"sync"\n'))
m("14-short-pad", "C14", ("packet/header.go", "	buf := bytes.NewReader(b)\n", "	if n := binary.Size(p); len(b) < n && len(b) > n-2 {\n		b = append(b[:len(b):len(b)], make([]byte, n-len(b))...)\n	}\n	buf := bytes.NewReader(b)\n"))
m("14-header-only", "C14", ("packet/header.go", "	if len(b) < 12 {\n", "	if len(b) < 12 || len(b) > 4096 {\n"))
m("10-op-range", "C10", (N, "	callback, ok := n.callbacks[p.GetOpCode()]\n", "	op := p.GetOpCode()\n	if op == code.OpIPProgReply {\n		op = code.OpIPProg\n	}\n	callback, ok := n.callbacks[op]\n"))
m("10-sync-drop", "C10", (N, "	n.callbacks[opcode] = func(p packet.ArtNetPacket) { go callback(p) }\n", "	busy := make(chan struct{}, 64)\n	n.callbacks[opcode] = func(p packet.ArtNetPacket) {\n		select {\n		case busy <- struct{}{}:\n			go func() {\n				callback(p)\n				<-busy\n			}()\n		default:\n		}\n	}\n"))
m("10-serial", "C10", (N, "	n.callbacks[opcode] = func(p packet.ArtNetPacket) { go callback(p) }\n", "	var mu sync.Mutex\n	n.callbacks[opcode] = func(p packet.ArtNetPacket) {\n		go func() {\n			mu.Lock()\n			callback(p)\n			mu.Unlock()\n		}()\n	}\n"))
m("08-cb-poll", "C08", (N, "	n.callbacks[opcode] = func(p packet.ArtNetPacket) { go callback(p) }\n", "	if old := n.callbacks[opcode]; old != nil && opcode == code.OpPollReply {\n		n.callbacks[code.OpPoll] = old\n	}\n	n.callbacks[opcode] = func(p packet.ArtNetPacket) { go callback(p) }\n"))
m("20-own-prefix", "C20", (N, "			if n.localAddr.IP.Equal(from.IP) {\n", "			if ip := from.IP.To4(); ip != nil && n.localAddr.IP.Mask(net.CIDRMask(31, 32)).Equal(ip.Mask(net.CIDRMask(31, 32))) {\n"))
m("13-conn-nil", "C13", (N, "	n.loops.Wait()\n	return true", "	n.loops.Wait()\n	n.Config.IP = n.localAddr.IP.To16()\n	if len(n.Config.OutputPorts) == 4 {\n		n.Config.OutputPorts = n.Config.OutputPorts[:3]\n	}\n	return true"))
m("14-short-ignored", "C14", ("packet/header.go", "	if err := binary.Read(buf, binary.BigEndian, p); err != nil {\n		return err\n	}\n	return p.validate()", "	binary.Read(buf, binary.BigEndian, p)\n	return p.validate()"))

# ---- fifth series: rare values and times, plausible "improvements"
TICK = "		case <-ticker.C:\n			now := time.Now()\n"
m("02-throttle", "C02", (C, "				if node.DMXBuffer[address].Stale {\n", "				if node.DMXBuffer[address].Stale && now.After(node.DMXBuffer[address].LastUpdate.Add(time.Second/time.Duration(c.maxFPS))) {\n"))
m("02-debounce", "C02", (C, "	LastUpdate time.Time\n	Stale      bool\n", "	LastUpdate time.Time\n	written    time.Time\n	Stale      bool\n"), (C, "	buf.Stale = true\n", "	buf.Stale = true\n	buf.written = time.Now()\n"),
  (C, "				if node.DMXBuffer[address].Stale {\n", "				if node.DMXBuffer[address].Stale && now.Sub(node.DMXBuffer[address].written) >= time.Second/time.Duration(c.maxFPS)/2 {\n"))
m("03-immediate", "C03", (C, "	err := cn.setDMXBuffer(dmx, address)\n", "	if b := cn.DMXBuffer[address]; b != nil && time.Since(b.LastUpdate) > 2*time.Second/time.Duration(c.maxFPS) {\n		cn.setDMXBuffer(dmx, address)\n		if p, err := cn.dmxUpdate(address); err == nil {\n			b.LastUpdate = time.Now()\n			b.Stale = false\n			c.cNode.send(netPayload{address: cn.UDPAddress, data: p})\n			return\n		}\n	}\n	err := cn.setDMXBuffer(dmx, address)\n"))
m("01-immediate-keeps", "C01", (C, "	buf.Data = dmx\n	buf.Stale = true\n", "	if buf.Stale && dmx == ([512]byte{}) {\n		return nil\n	}\n	buf.Data = dmx\n	buf.Stale = true\n"))
m("01-clear-on-dark", "C01", (C, "	buf.Data = dmx\n", "	n := len(dmx)\n	for n > 0 && dmx[n-1] == 0 && buf.Data[n-1] != 0 && n > 510 {\n		n--\n	}\n	copy(buf.Data[:n], dmx[:n])\n"))
m("01-high-net", "C01", (C, "		Net:      address.Net,\n", "		Net:      address.Net & 0x7f,\n"))
m("01-addr-moves-with-frame", "C01", (C, "			c.Nodes[i].Node = cfg\n", "			if old := c.Nodes[i].Node.OutputPorts; len(old) == 1 && len(cfg.OutputPorts) == 1 && old[0].Address != cfg.OutputPorts[0].Address && c.Nodes[i].DMXBuffer[cfg.OutputPorts[0].Address] == nil {\n				c.Nodes[i].DMXBuffer[cfg.OutputPorts[0].Address] = c.Nodes[i].DMXBuffer[old[0].Address]\n			}\n			c.Nodes[i].Node = cfg\n"))
m("02-cleared-after", "C02", (C, "		node.DMXBuffer[address].LastUpdate = now\n		node.DMXBuffer[address].Stale = false\n\n		c.cNode.send(netPayload{\n			address: node.UDPAddress,\n			data:    b,\n		})\n",
  "		node.DMXBuffer[address].LastUpdate = now\n		c.nodeLock.Unlock()\n		c.cNode.send(netPayload{\n			address: node.UDPAddress,\n			data:    b,\n		})\n		c.nodeLock.Lock()\n		if buf := node.DMXBuffer[address]; buf != nil {\n			buf.Stale = false\n		}\n"))
m("04-reset-on-style", "C04", (C, "			c.Nodes[i].Node = cfg\n", "			if c.Nodes[i].Node.Type != cfg.Type {\n				c.Nodes[i].Sequence = 0\n			}\n			c.Nodes[i].Node = cfg\n"))
m("04-reset-on-version", "C04", (C, "			c.Nodes[i].Node = cfg\n", "			if c.Nodes[i].Node.Version != cfg.Version || c.Nodes[i].Node.Status2 != cfg.Status2 {\n				c.Nodes[i].Sequence = 0\n			}\n			c.Nodes[i].Node = cfg\n"))
m("04-reset-on-late", "C04", (C, "			c.Nodes[i].LastSeen = time.Now()\n", "			if time.Since(c.Nodes[i].LastSeen) > 7*time.Second {\n				c.Nodes[i].Sequence = 0\n			}\n			c.Nodes[i].LastSeen = time.Now()\n"))
m("04-late-blank", "C01", (C, "			c.Nodes[i].LastSeen = time.Now()\n", "			if time.Since(c.Nodes[i].LastSeen) > 7*time.Second {\n				c.Nodes[i].DMXBuffer = make(map[Address]*dmxBuffer)\n			}\n			c.Nodes[i].LastSeen = time.Now()\n"))
m("05-ctrl-drops", "C05", (C, "			if cfg.Type == code.StController && len(cfg.OutputPorts) == 0 {\n", "			if cfg.Type == code.StController && len(cfg.OutputPorts) == 0 {\n				c.deleteNode(cfg)\n"), (C, "			c.Nodes = append(c.Nodes[:i], c.Nodes[i+1:]...)\n		}\n	}\n\n	return fmt", "			c.Nodes = append(c.Nodes[:i], c.Nodes[i+1:]...)\n			return nil\n		}\n	}\n\n	return fmt"))
m("05-other-style-drops", "C05", (C, "				// we don't care for ArtNet devices other then nodes and controllers for now @todo\n", "				c.deleteNode(cfg)\n"), (C, "			c.Nodes = append(c.Nodes[:i], c.Nodes[i+1:]...)\n		}\n	}\n\n	return fmt", "			c.Nodes = append(c.Nodes[:i], c.Nodes[i+1:]...)\n			return nil\n		}\n	}\n\n	return fmt"))
m("05-other-style-refreshes", "C05", (C, "				// we don't care for ArtNet devices other then nodes and controllers for now @todo\n", "				c.nodeLock.Lock()\n				for _, n := range c.Nodes {\n					if n.Node.IP.Equal(cfg.IP) {\n						n.LastSeen = time.Now()\n					}\n				}\n				c.nodeLock.Unlock()\n"))
m("05-gc-snapshot", "C05", (C, "start:\n	for i := range c.Nodes {\n		if c.Nodes[i].LastSeen.Add(staleAfter).Before(time.Now()) {", "start:\n	for i := range c.Nodes {\n		if c.Nodes[i].LastSeen.Truncate(time.Millisecond).Add(staleAfter).Before(time.Now().Truncate(time.Millisecond)) {"))
m("05-loopback", "C05", (C, "			if err := c.updateNode(cfg); err != nil {\n", "			if cfg.IP.IsLoopback() || cfg.IP.IsUnspecified() || cfg.IP.IsMulticast() {\n				continue\n			}\n			if err := c.updateNode(cfg); err != nil {\n"))
m("05-own-ip", "C05", (C, "			if err := c.updateNode(cfg); err != nil {\n", "			if cfg.IP.Equal(c.cNode.Config.IP) {\n				continue\n			}\n			if err := c.updateNode(cfg); err != nil {\n"))
m("05-same-name", "C05", (C, "			if err := c.updateNode(cfg); err != nil {\n", "			if cfg.Name == c.cNode.Config.Name && cfg.Name != \"\" {\n				continue\n			}\n			if err := c.updateNode(cfg); err != nil {\n"))
m("05-bindip-ident", "C05", (C, "		if bytes.Equal(cfg.IP, c.Nodes[i].Node.IP) {\n			// update", "		if bytes.Equal(cfg.IP, c.Nodes[i].Node.IP) || (cfg.BindIndex > 1 && bytes.Equal(cfg.BindIP, c.Nodes[i].Node.IP)) {\n			// update"))
m("06-in-if-out", "C06", (C, "			for _, port := range c.Nodes[i].Node.InputPorts {\n				delete(c.InputAddress, port.Address)\n			}\n			c.Nodes[i].Node = cfg\n", "			for _, port := range c.Nodes[i].Node.InputPorts {\n				if c.OutputAddress[port.Address] == nil {\n					delete(c.InputAddress, port.Address)\n				}\n			}\n			c.Nodes[i].Node = cfg\n"))
m("06-gc-in-by-out", "C06", (C, "			for _, port := range c.Nodes[i].Node.InputPorts {\n				delete(c.InputAddress, port.Address)\n			}\n			// remove node\n", "			for n, port := range c.Nodes[i].Node.InputPorts {\n				if n < 3 {\n					delete(c.InputAddress, port.Address)\n				}\n			}\n			// remove node\n"))
m("06-disabled-port", "C06", (C, "			for _, port := range c.Nodes[i].Node.InputPorts {\n				c.InputAddress[port.Address] = c.Nodes[i]\n", "			for _, port := range c.Nodes[i].Node.InputPorts {\n				if port.Status.Disabled() {\n					continue\n				}\n				c.InputAddress[port.Address] = c.Nodes[i]\n"))
m("06-sacn-port", "C06", (C, "	for _, port := range node.Node.OutputPorts {\n		c.OutputAddress[port.Address] = node\n", "	for _, port := range node.Node.OutputPorts {\n		if port.Status&1 == 1 && port.Type.Type() != \"DMX512\" {\n			continue\n		}\n		c.OutputAddress[port.Address] = node\n"))
m("07-coalesce", "C07", (N, "			n.send(netPayload{\n				address: n.broadcastAddr,\n", "			if n.Config.Type == code.StController {\n				for len(n.pollCh) > 4 {\n					<-n.pollCh\n				}\n			}\n			n.send(netPayload{\n				address: n.broadcastAddr,\n"))
m("07-restart-late", "C07", (C, "	// send ArtPollPacket\n	c.cNode.send(netPayload{\n		address: c.broadcastAddr,\n		data:    b,\n	})\n	c.cNode.poll(packet.ArtPollPacket{})\n\n	// loop", "	// send ArtPollPacket\n	if !c.polled {\n		c.cNode.send(netPayload{\n			address: c.broadcastAddr,\n			data:    b,\n		})\n		c.cNode.poll(packet.ArtPollPacket{})\n	}\n	c.polled = true\n\n	// loop"), (C, "	maxFPS int\n", "	maxFPS int\n	polled bool\n"))
m("07-hears-other-controller", "C07", (C, "			if cfg.Type == code.StController && len(cfg.OutputPorts) == 0 {\n", "			if cfg.Type == code.StController && len(cfg.OutputPorts) == 0 {\n				c.pollTicker.Reset(pollInterval)\n"))
m("08-target-port", "C08", (N, "	n.loops.Add(1)\n	go func() {\n		defer n.loops.Done()\n		n.poll(*poll)", "	if poll.TalkToMe&(1<<5) != 0 && n.Config.BaseAddress.Net > 0x7f {\n		return\n	}\n	n.loops.Add(1)\n	go func() {\n		defer n.loops.Done()\n		n.poll(*poll)"))
m("08-spare", "C08", (N, "	n.loops.Add(1)\n	go func() {\n		defer n.loops.Done()\n		n.poll(*poll)", "	if poll.Version[0] != 0 {\n		return\n	}\n	n.loops.Add(1)\n	go func() {\n		defer n.loops.Done()\n		n.poll(*poll)"))
m("08-no-ip", "C08", (N, "			if n.localAddr.IP.Equal(from.IP) {\n", "			if n.localAddr.IP.Equal(from.IP) || (n.localAddr.IP == nil && from.IP.IsLoopback()) {\n"))
m("10-loopback", "C10", (N, "			if n.localAddr.IP.Equal(from.IP) {\n", "			if n.localAddr.IP.Equal(from.IP) || from.IP.IsLoopback() {\n"))
m("10-bcast-src", "C10", (N, "			if n.localAddr.IP.Equal(from.IP) {\n", "			if n.localAddr.IP.Equal(from.IP) || from.IP.Equal(n.broadcastAddr.IP) {\n"))
m("10-linklocal", "C10", (N, "			if n.localAddr.IP.Equal(from.IP) {\n", "			if n.localAddr.IP.Equal(from.IP) || from.IP.IsLinkLocalUnicast() {\n"))
m("10-low-port", "C10", (N, "			if n.localAddr.IP.Equal(from.IP) {\n", "			if n.localAddr.IP.Equal(from.IP) || from.Port < 1024 {\n"))
m("11-w-netunreach", "C11", (N, '				n.log.With(Fields{"error": err}).Debugf("error writing packet")\n', '				n.log.With(Fields{"error": err}).Debugf("error writing packet")\n				if errors.Is(err, syscall.ENETUNREACH) {\n					return\n				}\n'), (N, '	"sync"\n', '	"sync"\n	"syscall"\n'))
m("11-r-connrefused", "C11", (N, "				if err == io.EOF || errors.Is(err, net.ErrClosed) {", "				if err == io.EOF || errors.Is(err, net.ErrClosed) || errors.Is(err, syscall.ECONNREFUSED) {"), (N, '	"sync"\n', '	"sync"\n	"syscall"\n'))
m("11-r-timeout", "C11", (N, "				if err == io.EOF || errors.Is(err, net.ErrClosed) {", "				if ne, ok := err.(net.Error); err == io.EOF || errors.Is(err, net.ErrClosed) || ok && ne.Timeout() {"))
m("11-w-timeout", "C11", (N, '				n.log.With(Fields{"error": err}).Debugf("error writing packet")\n', '				n.log.With(Fields{"error": err}).Debugf("error writing packet")\n				if ne, ok := err.(net.Error); ok && ne.Timeout() {\n					return\n				}\n'))
m("11-w-nobufs", "C11", (N, '				n.log.With(Fields{"error": err}).Debugf("error writing packet")\n', '				n.log.With(Fields{"error": err}).Debugf("error writing packet")\n				if errors.Is(err, syscall.ENOBUFS) {\n					return\n				}\n'), (N, '	"sync"\n', '	"sync"\n	"syscall"\n'))
m("11-w-perm", "C11", (N, '				n.log.With(Fields{"error": err}).Debugf("error writing packet")\n', '				n.log.With(Fields{"error": err}).Debugf("error writing packet")\n				if errors.Is(err, syscall.EPERM) || errors.Is(err, syscall.EACCES) {\n					return\n				}\n'), (N, '	"sync"\n', '	"sync"\n	"syscall"\n'))
m("11-r-msgsize", "C11", (N, "				if err == io.EOF || errors.Is(err, net.ErrClosed) {", "				if err == io.EOF || errors.Is(err, net.ErrClosed) || errors.Is(err, syscall.ENETDOWN) || errors.Is(err, syscall.ENOMEM) {"), (N, '	"sync"\n', '	"sync"\n	"syscall"\n'))
m("11-eof", "C11", (N, "				if err == io.EOF || errors.Is(err, net.ErrClosed) {", "				if errors.Is(err, io.EOF) || errors.Is(err, net.ErrClosed) {"))
m("12-ticker-block", "C12", (C, "	c.pollTicker.Stop()\n	c.gcTicker.Stop()\n	close(c.shutdownCh)\n", "	c.nodeLock.Lock()\n	c.pollTicker.Stop()\n	c.gcTicker.Stop()\n	close(c.shutdownCh)\n	c.nodeLock.Unlock()\n"))
m("12-ctrl-first", "C12", (C, "	if !c.cNode.stop() {\n		return\n	}\n	c.pollTicker.Stop()\n	c.gcTicker.Stop()\n	close(c.shutdownCh)\n	c.loops.Wait()\n", "	if c.cNode.isShutdown() {\n		return\n	}\n	c.pollTicker.Stop()\n	c.gcTicker.Stop()\n	close(c.shutdownCh)\n	c.loops.Wait()\n	c.cNode.stop()\n"))
m("13-opts-reset", "C13", (N, "	n.loops.Wait()\n	return true", "	n.loops.Wait()\n	n.log = n.log.With(nil)\n	if n.listenAddr.IP == nil {\n		n.listenAddr = *n.conn.LocalAddr().(*net.UDPAddr)\n	}\n	return true"))
m("13-fail-closes-ch", "C13", (N, '		n.shutdownErr = fmt.Errorf("error net.ListenPacket: %s", err)\n', '		n.shutdownErr = fmt.Errorf("error net.ListenPacket: %s", err)\n		n.callbacks[code.OpPoll] = n.handlePacketPoll\n'))
m("19-same-addr", "C19", (G, "		if c.InputPorts[i].Type.Type() != c.OutputPorts[i].Type.Type() {\n", "		if c.InputPorts[i].Address == c.OutputPorts[i].Address && c.BaseAddress.Net > 0x7f {\n			return fmt.Errorf(\"same address\")\n		}\n		if c.InputPorts[i].Type.Type() != c.OutputPorts[i].Type.Type() {\n"))
m("19-dup-addr", "C19", (G, "	for i := 0; i < 4; i++ {\n		if len(c.InputPorts) <= i", "	for i := range c.OutputPorts {\n		for j := 0; j < i; j++ {\n			if c.OutputPorts[i].Address == c.OutputPorts[j].Address {\n				return fmt.Errorf(\"duplicate\")\n			}\n		}\n	}\n	for i := 0; i < 4; i++ {\n		if len(c.InputPorts) <= i"))
m("19-base", "C19", (G, "	for i := 0; i < 4; i++ {\n		if len(c.InputPorts) <= i", "	for i := range c.OutputPorts {\n		if c.OutputPorts[i].Address.SubUni&^15 != c.BaseAddress.SubUni&^15 {\n			return fmt.Errorf(\"sub-net\")\n		}\n	}\n	for i := 0; i < 4; i++ {\n		if len(c.InputPorts) <= i"))
m("20-bcast-alias", "C20", (O, "		c.broadcastAddr = addr\n", "		c.broadcastAddr = addr\n		if addr.Port == 0 {\n			c.broadcastAddr.Port = packet.ArtNetPort\n		}\n"))
m("20-listen-nil", "C20", (O, "		n.listenAddr = addr\n", "		if addr.IP == nil {\n			addr.IP = n.listenAddr.IP\n		}\n		n.listenAddr = addr\n"))
m("20-bcast-mapped", "C20", (O, "		n.broadcastAddr = addr\n", "		n.broadcastAddr = addr\n		if addr.IP.IsLoopback() {\n			n.broadcastAddr.IP = defaultBroadcastAddr.IP\n		}\n"))
m("20-option-running", "C20", (N, "			n.send(netPayload{\n				address: n.broadcastAddr,\n", "			n.send(netPayload{\n				address: bc,\n"), (N, "	var timer time.Ticker\n", "	var timer time.Ticker\n	bc := n.broadcastAddr\n	if bc.Port == 0 || bc.IP == nil {\n		bc = defaultBroadcastAddr\n	}\n"))
m("18-two-locks", "C18", (C, "	cn.nodeLock.Lock()\n	defer cn.nodeLock.Unlock()\n\n	var buf *dmxBuffer\n	var ok bool\n\n	if buf, ok = cn.DMXBuffer[address]; !ok {\n		return fmt.Errorf(\"unknown address for controlled node\")\n	}\n\n	buf.Data = dmx\n", "	var buf *dmxBuffer\n	var ok bool\n\n	if buf, ok = cn.DMXBuffer[address]; !ok {\n		return fmt.Errorf(\"unknown address for controlled node\")\n	}\n\n	cn.nodeLock.Lock()\n	copy(buf.Data[:256], dmx[:256])\n	cn.nodeLock.Unlock()\n	cn.nodeLock.Lock()\n	defer cn.nodeLock.Unlock()\n	copy(buf.Data[256:], dmx[256:])\n"), (C, "	c.nodeLock.Lock()\n	defer c.nodeLock.Unlock()\n\n	var cn *ControlledNode\n	var ok bool\n\n	if cn, ok = c.OutputAddress[address]; !ok {\n", "	var cn *ControlledNode\n	var ok bool\n\n	c.nodeLock.Lock()\n	cn, ok = c.OutputAddress[address]\n	c.nodeLock.Unlock()\n	if !ok {\n"))
m("18-write-later", "C18", (C, "	err := cn.setDMXBuffer(dmx, address)\n	if err != nil {\n", "	if buf := cn.DMXBuffer[address]; buf != nil && buf.Stale {\n		go cn.setDMXBuffer(dmx, address)\n		return\n	}\n	err := cn.setDMXBuffer(dmx, address)\n	if err != nil {\n"))


def run(x):
    name, prop, edits = x
    s = "/tmp/mut-" + name
    shutil.rmtree(s, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", s + "/repo"])
    for f, old, new in edits:
        p = os.path.join(s, "repo", f)
        t = open(p).read()
        if t.count(old) != 1:
            shutil.rmtree(s)
            return f"{name}: EDIT FAILS ({t.count(old)}) {old[:60]!r}"
        open(p, "w").write(t.replace(old, new))
    env = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
    r = subprocess.run(["go", "test", "-vet=off", "-count=1", "./..."], cwd=s + "/repo", env=env, capture_output=True, text=True)
    note = "" if r.returncode == 0 else " TESTS-FAIL " + (r.stdout + r.stderr)[-300:]
    env.update(VERIF_REPO=s + "/repo", VERIF_OUT=s + "/out")
    r = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "check.py"), prop], env=env, capture_output=True, text=True, timeout=1000)
    res = {0: "MISSED", 1: "caught"}.get(r.returncode, f"BROKEN({r.returncode})")
    why = r.stdout.strip().split("\n")[0][:150] if r.returncode else ""
    if r.returncode not in (0, 1):
        why = (r.stdout + r.stderr)[-600:]
    shutil.rmtree(s)
    return f"{name}: {prop} {res}{note} {why}"


if __name__ == "__main__":
    a = sys.argv[1:]
    j = 2
    if a[:1] == ["-j"]:
        j, a = int(a[1]), a[2:]
    as_ = None
    if a[:1] == ["-as"]:    # run them against the check of another property
        as_, a = a[1], a[2:]
    todo = [(x[0], as_ or x[1], x[2]) for x in M if not a or any(x[0].startswith(y) or x[1] == y for y in a)]
    with cf.ThreadPoolExecutor(j) as ex:
        for f in cf.as_completed([ex.submit(run, x) for x in todo]):
            print(f.result(), flush=True)
