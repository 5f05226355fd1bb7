"""Bits that mean nothing to the receiver, filled in differently from datagram to datagram.

What a gateway or a node puts into reserved bits, into the flags "more information" and "secure origin" of a Z/IP
packet, or into fields nobody reads, must not make a difference. Every execution on the controlled loop therefore
receives its datagrams with these bits set in a fixed pattern, which depends on nothing but the datagram and its
number in the execution.
"""
import zlib

from . import wire

# Fields that are not reserved, but whose contents carry no meaning for the program
IDLE = {"NetworkManagementProxy.NodeListReport": ["status"], "NetworkManagementProxy.NodeInfoCachedReport": ["age"],
        "AssociationGrpInfo.GroupInfoReport": ["dynamicInfo"], "Supervision.Get": ["statusUpdates"],
        "ZipND.ZipNodeAdvertisement": ["local"]}


def _table(named):
    """head -> (mask, value) pairs, one byte each, for the plain bytes in front of the first structured field"""
    table = {}
    for name, spec in wire.MESSAGES.items():
        bits = ""
        for field in spec.fields:
            if field.kind:
                break
            idle = field.reserved or named and field.name in IDLE.get(name, ())
            bits += ("1" if idle else "0") * field.bits
        bits = bits[: len(bits) // 8 * 8]
        if "1" in bits:
            table[spec.head] = bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8))
    del table[b"\x23\x02"]
    return table


TABLE = {"named": _table(True), "reserved": _table(False)}


def command(cmd, kind):
    """A command with everything set that means nothing. Anything that is not a whole message is left alone"""
    masks = TABLE[kind].get(bytes(cmd[:2]))
    if not masks or len(cmd) < 2 + len(masks):
        return cmd
    cmd = bytearray(cmd)
    for i, mask in enumerate(masks):
        if cmd[2 + i] & mask and cmd[:2] != b"\x58\x01":
            return bytes(cmd)
        cmd[2 + i] |= mask
    return bytes(cmd)


def dress(data, number, kind):
    """Datagram number of an execution, as it really arrives. kind: with the fields of IDLE ("named") or only with the
    reserved bits ("reserved"), where the fields of the messages are looked at"""
    mode = (zlib.crc32(data) + number) % 4
    if mode == 0:
        return data
    if data[:2] != b"\x23\x02":
        return command(data, kind)
    if len(data) < 7:
        return data
    head, rest = bytearray(data[:7]), data[7:]
    ext = b""
    if head[3] & 0x80:
        if not rest or not 1 <= rest[0] <= len(rest):
            return data
        ext, rest = rest[: rest[0]], rest[rest[0]:]
    if mode & 1:
        head[2] |= 0x03
        head[3] |= 0x2F
        head[5] |= 0x80
        head[6] |= 0x80
        if mode == 1:
            head[3] &= 0xEF
    if mode & 2:
        if rest and head[3] & 0x40:
            rest = command(rest, kind)
    return bytes(head) + ext + rest
