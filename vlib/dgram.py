"""Datagrams for the scripts (stimuli only: what they mean is decided by the specification)."""
import struct

ID = b"Art-Net\0"


def hexs(b):
    return bytes(b).hex()


def reply(ip, outs=(), ins=(), style=0, net=None, sub=None, name="n", long="", num=None, status2=0, bind=0, mac=b"\0" * 6,
          types=None, good=0x80, port=6454, oem=0, version=0, tail=b"", status1=0, ubea=0, esta=b"\0\0", report=b"", bindip=b"\0" * 4, sw=b"\0" * 3):
    """ArtPollReply; outs/ins: lists of 15 bit universe addresses in one Net/Sub-Net, up to 4 each."""
    some = list(outs) + list(ins)
    base = some[0] if some else 0
    net = (base >> 8) if net is None else net
    sub = ((base >> 4) & 15) if sub is None else sub
    n = max(len(outs), len(ins)) if num is None else num
    pt = bytearray(4)
    swin, swout = bytearray(4), bytearray(4)
    gi, go = bytearray(4), bytearray(4)
    for i, a in enumerate(outs):
        pt[i] |= 0x80
        swout[i] = a & 15
        go[i] = good
    for i, a in enumerate(ins):
        pt[i] |= 0x40
        swin[i] = a & 15
        gi[i] = good
    if types:
        for i, t in enumerate(types):
            pt[i] |= t
    b = ID + struct.pack("<H", 0x2100) + bytes(ip) + struct.pack("<H", port) + struct.pack(">H", version) + bytes([net, sub])
    b += struct.pack(">H", oem) + bytes([ubea, status1]) + esta
    b += name.encode()[:18].ljust(18, b"\0") + long.encode()[:64].ljust(64, b"\0") + report.ljust(64, b"\0")
    b += struct.pack(">H", n) + bytes(pt) + bytes(gi) + bytes(go) + bytes(swin) + bytes(swout)
    b += sw + b"\0" * 3 + bytes([style]) + bytes(mac) + bytes(bindip) + bytes([bind, status2]) + b"\0" * 26
    return b + tail


def head(op, ver=14):
    return ID + struct.pack("<H", op) + struct.pack(">H", ver)


def poll(ttm=0, prio=0, ver=14, tail=b""):
    return head(0x2000, ver) + bytes([ttm, prio]) + tail


def dmx(net, sub, data, seq=1, phys=0):
    return head(0x5000) + bytes([seq, phys, sub, net]) + struct.pack(">H", len(data)) + bytes(data)
