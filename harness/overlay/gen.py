#!/usr/bin/env python3
"""Generate a `go build -overlay` file that lets a test harness substitute an
in-memory datagram network for UDP sockets in the standard library's package
net, and observe the locking of package sync (scheduling points).  Only these
two packages are overlaid; nothing of /repo is touched.

With net.VerifListen and sync.VerifPoint unset they behave exactly as shipped."""
import json, os, subprocess, sys

out = os.path.abspath(sys.argv[1])
os.makedirs(out, exist_ok=True)
goroot = subprocess.check_output(["go", "env", "GOROOT"], text=True).strip()
src = os.path.join(goroot, "src", "net")


def sub(text, old, new):
    assert text.count(old) == 1, (old, text.count(old))
    return text.replace(old, new)


u = open(os.path.join(src, "udpsock.go")).read()
u = sub(u, "type UDPConn struct {\n\tconn\n}", "type UDPConn struct {\n\tconn\n\tvp VerifEndpoint\n}")
u = sub(u, "return &UDPConn{conn{fd}}", "return &UDPConn{conn: conn{fd}}")

p = open(os.path.join(src, "udpsock_posix.go")).read()
p = sub(p, "func (c *UDPConn) readFrom(b []byte, addr *UDPAddr) (int, *UDPAddr, error) {\n",
"""func (c *UDPConn) readFrom(b []byte, addr *UDPAddr) (int, *UDPAddr, error) {
	if c.vp != nil {
		n, from, err := c.vp.ReadFrom(b)
		if err != nil {
			return 0, nil, err
		}
		*addr = from
		return n, addr, nil
	}
""")
p = sub(p, "func (c *UDPConn) readFromAddrPort(b []byte) (n int, addr netip.AddrPort, err error) {\n",
"""func (c *UDPConn) readFromAddrPort(b []byte) (n int, addr netip.AddrPort, err error) {
	if c.vp != nil {
		n, from, err := c.vp.ReadFrom(b)
		if err != nil {
			return 0, netip.AddrPort{}, err
		}
		return n, from.AddrPort(), nil
	}
""")
p = sub(p, "func (c *UDPConn) readMsg(b, oob []byte) (n, oobn, flags int, addr netip.AddrPort, err error) {\n",
"""func (c *UDPConn) readMsg(b, oob []byte) (n, oobn, flags int, addr netip.AddrPort, err error) {
	if c.vp != nil {
		n, from, err := c.vp.ReadFrom(b)
		if err != nil {
			return 0, 0, 0, netip.AddrPort{}, err
		}
		return n, 0, 0, from.AddrPort(), nil
	}
""")
p = sub(p, "func (c *UDPConn) writeTo(b []byte, addr *UDPAddr) (int, error) {\n",
"""func (c *UDPConn) writeTo(b []byte, addr *UDPAddr) (int, error) {
	if c.vp != nil {
		if addr == nil {
			return 0, errMissingAddress
		}
		if _, err := ipToSockaddrInet4(addr.IP, addr.Port); err != nil {
			return 0, err
		}
		return c.vp.WriteTo(b, *addr)
	}
""")
p = sub(p, "func (c *UDPConn) writeToAddrPort(b []byte, addr netip.AddrPort) (int, error) {\n",
"""func (c *UDPConn) writeToAddrPort(b []byte, addr netip.AddrPort) (int, error) {
	if c.vp != nil {
		if !addr.IsValid() {
			return 0, errMissingAddress
		}
		return c.writeTo(b, UDPAddrFromAddrPort(addr))
	}
""")
p = sub(p, "func (c *UDPConn) writeMsg(b, oob []byte, addr *UDPAddr) (n, oobn int, err error) {\n",
"""func (c *UDPConn) writeMsg(b, oob []byte, addr *UDPAddr) (n, oobn int, err error) {
	if c.vp != nil {
		n, err := c.writeTo(b, addr)
		return n, 0, err
	}
""")
p = sub(p, "func (c *UDPConn) writeMsgAddrPort(b, oob []byte, addr netip.AddrPort) (n, oobn int, err error) {\n",
"""func (c *UDPConn) writeMsgAddrPort(b, oob []byte, addr netip.AddrPort) (n, oobn int, err error) {
	if c.vp != nil {
		n, err := c.writeToAddrPort(b, addr)
		return n, 0, err
	}
""")
p = sub(p, "func (sl *sysListener) listenUDP(ctx context.Context, laddr *UDPAddr) (*UDPConn, error) {\n",
"""func (sl *sysListener) listenUDP(ctx context.Context, laddr *UDPAddr) (*UDPConn, error) {
	if VerifListen != nil {
		return verifListenUDP(sl.network, laddr)
	}
""")

v = '''package net

import (
	"os"
	"syscall"
	"time"
)

// VerifEndpoint is the harness side of a virtual UDP socket.
type VerifEndpoint interface {
	ReadFrom(b []byte) (int, UDPAddr, error)
	WriteTo(b []byte, addr UDPAddr) (int, error)
	SetReadDeadline(t time.Time) error
	Close() error
}

// VerifListen, when set, is called instead of opening a UDP socket.
var VerifListen func(network string, laddr UDPAddr) (VerifEndpoint, UDPAddr, error)

func verifListenUDP(network string, laddr *UDPAddr) (*UDPConn, error) {
	var la UDPAddr
	if laddr != nil {
		la = *laddr
	}
	ep, bound, err := VerifListen(network, la)
	if err != nil {
		return nil, err
	}
	fd := &netFD{family: syscall.AF_INET, sotype: syscall.SOCK_DGRAM, net: network}
	fd.pfd.Sysfd = -1
	fd.laddr = &bound
	return &UDPConn{conn: conn{fd}, vp: ep}, nil
}

// Close closes the connection.
func (c *UDPConn) Close() error {
	if c != nil && c.vp != nil {
		if err := c.vp.Close(); err != nil {
			return &OpError{Op: "close", Net: c.fd.net, Source: c.fd.laddr, Addr: c.fd.raddr, Err: err}
		}
		return nil
	}
	return c.conn.Close()
}

// Read reads from the connection.
func (c *UDPConn) Read(b []byte) (int, error) {
	if c != nil && c.vp != nil {
		n, _, err := c.vp.ReadFrom(b)
		if err != nil {
			err = &OpError{Op: "read", Net: c.fd.net, Source: c.fd.laddr, Addr: c.fd.raddr, Err: err}
		}
		return n, err
	}
	return c.conn.Read(b)
}

// SetDeadline sets both deadlines.
func (c *UDPConn) SetDeadline(t time.Time) error { return c.SetReadDeadline(t) }

// SetReadDeadline sets the read deadline.
func (c *UDPConn) SetReadDeadline(t time.Time) error {
	if c != nil && c.vp != nil {
		return c.vp.SetReadDeadline(t)
	}
	return c.conn.SetReadDeadline(t)
}

// SetWriteDeadline sets the write deadline.
func (c *UDPConn) SetWriteDeadline(t time.Time) error {
	if c != nil && c.vp != nil {
		return nil
	}
	return c.conn.SetWriteDeadline(t)
}

// SetReadBuffer sets the receive buffer size.
func (c *UDPConn) SetReadBuffer(n int) error {
	if c != nil && c.vp != nil {
		return nil
	}
	return c.conn.SetReadBuffer(n)
}

// SetWriteBuffer sets the send buffer size.
func (c *UDPConn) SetWriteBuffer(n int) error {
	if c != nil && c.vp != nil {
		return nil
	}
	return c.conn.SetWriteBuffer(n)
}

// File returns a copy of the underlying file.
func (c *UDPConn) File() (*os.File, error) {
	if c != nil && c.vp != nil {
		return nil, syscall.EINVAL
	}
	return c.conn.File()
}
'''
# ---- sync: a scheduling point before each Lock and after each Unlock
ssrc = os.path.join(goroot, "src", "sync")


def body(text, sig, before="", after=""):
    """Put code at the begin of a method and, through defer-free wrapping, after it."""
    old = sig + " {\n"
    assert text.count(old) == 1, (sig, text.count(old))
    if before:
        text = text.replace(old, old + before)
    if after:
        name = sig.split(") ")[1]
        recv = sig.split("(")[1].split(" ")[0]
        inner = "verif" + name
        text = text.replace(old, sig + " {\n\t" + recv + "." + inner + "\n" + after + "}\n\n" + sig.replace(name, inner) + " {\n")
    return text


PT = "\tif f := VerifPoint.Load(); f != nil {\n\t\t(*f)()\n\t}\n"
m = open(os.path.join(ssrc, "mutex.go")).read()
m = body(m, "func (m *Mutex) Lock()", before=PT)
m = body(m, "func (m *Mutex) Unlock()", after=PT)
w = open(os.path.join(ssrc, "rwmutex.go")).read()
for k in ("Lock", "RLock"):
    w = body(w, f"func (rw *RWMutex) {k}()", before=PT)
for k in ("Unlock", "RUnlock"):
    w = body(w, f"func (rw *RWMutex) {k}()", after=PT)
sv = '''package sync

import (
	isync "internal/sync"
	"sync/atomic"
)

// VerifPoint, when set, is called before a mutex is locked and after it was unlocked.
var VerifPoint atomic.Pointer[func()]

// VerifMutex is a mutex without scheduling points.
type VerifMutex struct{ mu isync.Mutex }

func (m *VerifMutex) Lock()   { m.mu.Lock() }
func (m *VerifMutex) Unlock() { m.mu.Unlock() }
'''
files = {"udpsock.go": u, "udpsock_posix.go": p, "verif_vnet.go": v}
rep = {}
for name, text in files.items():
    f = os.path.join(out, name)
    open(f, "w").write(text)
    rep[os.path.join(src, name)] = f
for name, text in {"mutex.go": m, "rwmutex.go": w, "verif_point.go": sv}.items():
    f = os.path.join(out, "sync_" + name)
    open(f, "w").write(text)
    rep[os.path.join(ssrc, name)] = f
json.dump({"Replace": rep}, open(os.path.join(out, "overlay.json"), "w"), indent=1)
