package h

import (
	"net"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet/code"
)

// PortJ / CfgJ mirror the configuration records of Announce.tla.
type PortJ struct {
	Addr   int `json:"addr"`
	Type   int `json:"type"`
	Status int `json:"status"`
}

type CfgJ struct {
	Oem          int     `json:"oem"`
	Version      int     `json:"version"`
	Bios         int     `json:"bios"`
	Manufacturer []int   `json:"manufacturer"`
	Style        int     `json:"style"`
	Name         []int   `json:"name"`
	Description  []int   `json:"description"`
	Report       []int   `json:"report"`
	Mac          []int   `json:"mac"`
	IP           []int   `json:"ip"`
	BindIP       []int   `json:"bindip"`
	BindIndex    int     `json:"bindindex"`
	Port         int     `json:"port"`
	Status1      int     `json:"status1"`
	Status2      int     `json:"status2"`
	Base         int     `json:"base"`
	Inputs       []PortJ `json:"inputs"`
	Outputs      []PortJ `json:"outputs"`
	IP16         bool    `json:"ip16"` // addresses in their 16 byte form
}

func bs(x []int) []byte {
	r := make([]byte, len(x))
	for i, v := range x {
		r[i] = byte(v)
	}
	return r
}

func strInts(s string) []int {
	r := []int{}
	for _, c := range s {
		r = append(r, int(c))
	}
	return r
}

func addr(a int) artnet.Address { return artnet.Address{Net: uint8(a >> 8), SubUni: uint8(a)} }
func addrInt(a artnet.Address) int {
	return int(a.Net)*256 + int(a.SubUni)
}

// Config builds the library's configuration.
func (c CfgJ) Config() artnet.NodeConfig {
	n := artnet.NodeConfig{
		OEM: uint16(c.Oem), Version: uint16(c.Version), BiosVersion: uint8(c.Bios),
		Manufacturer: string(bs(c.Manufacturer)), Type: code.StyleCode(c.Style),
		Name: string(bs(c.Name)), Description: string(bs(c.Description)),
		Ethernet: bs(c.Mac), IP: bs(c.IP), BindIP: bs(c.BindIP), BindIndex: uint8(c.BindIndex),
		Port: uint16(c.Port), Status1: code.Status1(c.Status1), Status2: code.Status2(c.Status2),
		BaseAddress: addr(c.Base),
	}
	if c.IP16 {
		n.IP, n.BindIP = n.IP.To16(), n.BindIP.To16()
	}
	for _, r := range c.Report {
		n.Report = append(n.Report, code.NodeReportCode(r))
	}
	for _, p := range c.Inputs {
		n.InputPorts = append(n.InputPorts, artnet.InputPort{Address: addr(p.Addr), Type: code.PortType(p.Type), Status: code.GoodInput(p.Status)})
	}
	for _, p := range c.Outputs {
		n.OutputPorts = append(n.OutputPorts, artnet.OutputPort{Address: addr(p.Addr), Type: code.PortType(p.Type), Status: code.GoodOutput(p.Status)})
	}
	return n
}

func ip4(ip net.IP) []int {
	if v := ip.To4(); v != nil {
		return ints(v)
	}
	return ints(ip)
}

// cfgDump turns the library's configuration into the record of the specification.
func cfgDump(n artnet.NodeConfig) CfgJ {
	c := CfgJ{
		Oem: int(n.OEM), Version: int(n.Version), Bios: int(n.BiosVersion),
		Manufacturer: strInts(n.Manufacturer), Style: int(n.Type), Name: strInts(n.Name),
		Description: strInts(n.Description), Mac: ints(n.Ethernet), IP: ip4(n.IP), BindIP: ip4(n.BindIP),
		BindIndex: int(n.BindIndex), Port: int(n.Port), Status1: int(n.Status1), Status2: int(n.Status2),
		Base: addrInt(n.BaseAddress), Inputs: []PortJ{}, Outputs: []PortJ{}, Report: []int{},
	}
	for _, r := range n.Report {
		c.Report = append(c.Report, int(r))
	}
	for _, p := range n.InputPorts {
		c.Inputs = append(c.Inputs, PortJ{addrInt(p.Address), int(p.Type), int(p.Status)})
	}
	for _, p := range n.OutputPorts {
		c.Outputs = append(c.Outputs, PortJ{addrInt(p.Address), int(p.Type), int(p.Status)})
	}
	return c
}
