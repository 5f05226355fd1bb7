"""Reference model of the wire format: the messages of the Z-Wave specification, written down by hand.

One line per message: module, class, command class and command (hexadecimal) and its fields in wire order.
``name:N`` is an unsigned big-endian field of N bits, ``-:N`` are reserved bits, and ``name*kind`` is one of the
structured fields described by KINDS. Nothing of this is read from the code under test.
"""
import ipaddress

SPEC = """
ApplicationStatus ApplicationBusy 22 01 status:8 waitTime:8
Association Set 85 01 groupingIdentifier:8 nodes*assoc
Association Get 85 02 groupingIdentifier:8
Association Report 85 03 groupingIdentifier:8 maxNodesSupported:8 reportsToFollow:8 nodes*assoc
Association GroupingsGet 85 05
Association GroupingsReport 85 06 supportedGroupings:8
MultiChannelAssociation MultiChannelSet 8E 01 groupingIdentifier:8 nodes*assoc
MultiChannelAssociation MultiChannelGet 8E 02 groupingIdentifier:8
MultiChannelAssociation MultiChannelReport 8E 03 groupingIdentifier:8 maxNodesSupported:8 reportsToFollow:8 nodes*assoc
AssociationGrpInfo GroupNameGet 59 01 groupingIdentifier:8
AssociationGrpInfo GroupNameReport 59 02 groupingIdentifier:8 name*str
AssociationGrpInfo GroupInfoGet 59 03 refreshCache:1 listMode:1 -:6 groupingIdentifier:8
AssociationGrpInfo GroupInfoReport 59 04 listMode:1 dynamicInfo:1 groupCount:6 groups*groups
AssociationGrpInfo GroupCommandListGet 59 05 allowCache:1 -:7 groupingIdentifier:8
AssociationGrpInfo GroupCommandListReport 59 06 groupingIdentifier:8 commandClass*pairs
Basic Set 20 01 value:8
Basic Get 20 02
Basic Report 20 03 value:8
Battery Get 80 02
Battery Report 80 03 batteryLevel:8
Configuration Set 70 04 parameterNumber:8 default:1 -:4 size:3 value*cfg
Configuration Get 70 05 parameterNumber:8
Configuration Report 70 06 parameterNumber:8 -:5 size:3 value*cfg
Configuration BulkGet 70 08 parameterOffset:16 numberOfParameters:8
Configuration BulkReport 70 09 parameterOffset:16 numberOfParameters:8 reportsToFollow:8 default:1 handshake:1 -:3 size:3 parameter*rest
Indicator Set 87 01 value:8
Indicator Get 87 02
Indicator Report 87 03 value:8
Mailbox ConfigurationGet 69 01
Mailbox ConfigurationSet 69 02 -:5 mode:3 forwardingDestinationIPv6Address*ip udpPortNumber:16
Mailbox ConfigurationReport 69 03 -:3 supportedModes:2 mode:3 mailboxCapacity:16 forwardingDestinationIPv6Address*ip udpPortNumber:16
Mailbox Queue 69 04 -:4 last:1 operation:3 queueHandle:8 mailboxEntry*rest
Mailbox WakeupNotification 69 05 queueHandle:8
Mailbox NodeFailing 69 06 queueHandle:8
Mailbox QueueFlush 69 07 queueHandle:8
ManufacturerSpecific Get 72 04
ManufacturerSpecific Report 72 05 manufacturerID:16 productTypeID:16 productID:16
Meter Get 32 01 rateType:2 scale:3 -:3 scale2:8
Meter Report 32 02 scale2:1 rateType:2 meterType:5 meterValue*float deltaTime:16
Meter SupportedGet 32 03
Meter SupportedReport 32 04 meterReset:1 rateType:2 meterType:5 moreScaleTypes:1 scaleSupported:7 nbrScaleSupportedBytesToFollow:8 scaleSupportedByteN*rest
Meter Reset 32 05
NetworkManagementInclusion NodeAdd 34 01 seqNo:8 -:8 mode:8 txOptions:8
NetworkManagementInclusion NodeAddStatus 34 02 seqNo:8 status:8 -:8 newNodeID:8 nodeInfoLength:8 listening:1 -:7 optFunc:1 -:7 basicDeviceClass:8 genericDeviceClass:8 specificDeviceClass:8 commandClass*nif
NetworkManagementInclusion NodeRemove 34 03 seqNo:8 -:8 mode:8
NetworkManagementInclusion NodeRemoveStatus 34 04 seqNo:8 status:8 nodeID:8
NetworkManagementInclusion FailedNodeRemove 34 07 seqNo:8 nodeID:8
NetworkManagementInclusion FailedNodeRemoveStatus 34 08 seqNo:8 status:8 nodeID:8
NetworkManagementInclusion FailedNodeReplace 34 09 seqNo:8 nodeID:8 txOptions:8 mode:8
NetworkManagementInclusion FailedNodeReplaceStatus 34 0A seqNo:8 status:8 nodeID:8
NetworkManagementInclusion NodeNeightborUpdateRequest 34 0B seqNo:8 nodeID:8
NetworkManagementInclusion NodeNeightborUpdateStatus 34 0C seqNo:8 status:8
NetworkManagementInclusion ReturnRouteAssign 34 0D seqNo:8 sourceNodeID:8 destinationNodeID:8
NetworkManagementInclusion ReturnRouteAssignComplete 34 0E seqNo:8 status:8
NetworkManagementInclusion ReturnRouteDelete 34 0F seqNo:8 nodeID:8
NetworkManagementInclusion ReturnRouteDeleteComplete 34 10 seqNo:8 status:8
NetworkManagementInclusion NodeAddKeysReport 34 11 seqNo:8 -:7 requestCSA:1 requestedKeys:8
NetworkManagementInclusion NodeAddKeysSet 34 12 seqNo:8 -:6 grantCSA:1 accept:1 grantedKeys:8
NetworkManagementInclusion NodeAddDSKReport 34 13 seqNo:8 -:4 inputDSKLength:4 dsk*dsk16
NetworkManagementInclusion NodeAddDSKSet 34 14 seqNo:8 accept:1 -:3 inputDSKLength:4 dsk*dsk16
NetworkManagementInclusion SmartStartJoinStartedReport 34 15 seqNo:8 -:3 dskLength:5 dsk*dskn
NetworkManagementInclusion IncludedNIFReport 34 19 seqNo:8 -:3 dskLength:5 dsk*dskn
NetworkManagementProxy NodeListGet 52 01 seqNo:8
NetworkManagementProxy NodeListReport 52 02 seqNo:8 status:8 nodeListControllerId:8 nodes*mask29
NetworkManagementProxy NodeInfoCachedGet 52 03 seqNo:8 -:4 maxAge:4 nodeID:8
NetworkManagementProxy NodeInfoCachedReport 52 04 seqNo:8 status:4 age:4 listening:1 -:7 optFunc:1 -:7 -:8 basicDeviceClass:8 genericDeviceClass:8 specificDeviceClass:8 commandClass*rest
NetworkManagementProxy MultiChannelEndPointGet 52 05 seqNo:8 nodeID:8
NetworkManagementProxy MultiChannelEndPointReport 52 06 seqNo:8 nodeID:8 -:8 -:1 individualEndPoints:7 -:1 aggregatedEndPoints:7
NetworkManagementProxy MultiChannelCapabilityGet 52 07 seqNo:8 nodeID:8 -:1 endPoint:7
NetworkManagementProxy MultiChannelCapabilityReport 52 08 seqNo:8 nodeID:8 commandClassLength:8 -:1 endPoint:7 genericDeviceClass:8 specificDeviceClass:8 commandClass*rest
NetworkManagementProxy FailedNodeListGet 52 0B seqNo:8
NetworkManagementProxy FailedNodeListReport 52 0C seqNo:8 failedNodeList*mask29
NodeProvisioning Set 78 01 seqNo:8 dsk*dskp metaDataExtension*rest
NodeProvisioning ListIterationGet 78 03 seqNo:8 remainingCounter:8
NodeProvisioning ListIterationReport 78 04 seqNo:8 remainingCount:8 -:3 dskLengthN:5 dsk*dskn metaDataExtension*meta
SensorMultilevel SupportedGetSensor 31 01
SensorMultilevel SupportedSensorReport 31 02 bitMask*sensors
SensorMultilevel SupportedGetScale 31 03 sensorType:8
SensorMultilevel Get 31 04 sensorType:8 -:3 scale:2 -:3
SensorMultilevel Report 31 05 sensorType:8 sensorValue*float
SensorMultilevel SupportedScaleReport 31 06 sensorType:8 -:4 scaleBitMask:4
Supervision Get 6C 01 statusUpdates:1 -:1 sessionID:6 command*lencmd
Supervision Report 6C 02 moreStatusUpdates:1 wakeUpRequest:1 sessionID:6 status:8 duration:8
SwitchBinary Set 25 01 value:8
SwitchBinary Get 25 02
SwitchBinary Report 25 03 value:8
Version VersionGet 86 11
Version VersionReport 86 12 zwaveLibraryType:8 zwaveProtocolVersion:8 zwaveProtocolSubVersion:8 applicationVersion:8 applicationSubVersion:8
Version VersionCommandClassGet 86 13 requestedCommandClass:8
Version VersionCommandClassReport 86 14 requestedCommandClass:8 commandClassVersion:8
Zip ZipPacket 23 02 ackRequest:1 ackResponse:1 nackResponse:1 nackWaiting:1 nackQueueFull:1 nackOptionError:1 -:2 headerExtIncluded:1 zwCmdIncluded:1 moreInformation:1 secureOrigin:1 -:4 seqNo:8 -:1 sourceEP:7 -:1 destEP:7 command*cmd
Zip ZipKeepAlive 23 03 ackRequest:1 ackResponse:1 -:6
ZipGateway GatewayModeSet 5F 01 mode:8
ZipGateway GatewayModeGet 5F 02
ZipGateway GatewayModeReport 5F 03 mode:8
ZipGateway GatewayPeerSet 5F 04 peerProfile:8 ipv6*ip port:16 -:2 peerNameLength:6
ZipGateway UnsolicitedDestinationSet 5F 08 unsolicitedIPv6Destination*ip port:16
ZipGateway ApplicationNodeInfoSet 5F 0B commandClasses*rest
ZipND ZipNodeAdvertisement 58 01 -:5 local:1 validity:2 nodeId:8 ipv6*ip homeId:32
ZipND ZipInvNodeSolicitation 58 04 -:5 local:1 -:2 nodeId:8
ZwavePlusInfo Get 5E 01
ZwavePlusInfo Report 5E 02 zwavePlusVersion:8 roleType:8 nodeType:8 installerIconType:16 userIconType:16
"""

# Structured fields that can only be received
RECEIVE_ONLY = {"str", "groups", "pairs", "float", "nif", "mask29", "meta", "sensors"}


class Field:
    """One field"""

    def __init__(self, text):
        self.kind = None
        if "*" in text:
            self.name, self.kind = text.split("*")
            self.bits = None
        else:
            self.name, bits = text.split(":")
            self.bits = int(bits)
        self.reserved = self.name == "-"

    def __repr__(self):
        return "{}{}".format(self.name, ":{}".format(self.bits) if self.bits else "*" + self.kind)


class Spec:
    """One message"""

    def __init__(self, line):
        parts = line.split()
        self.module, self.cls = parts[:2]
        self.head = bytes.fromhex(parts[2] + parts[3])
        self.fields = [Field(p) for p in parts[4:]]
        self.name = "{}.{}".format(self.module, self.cls)

    @property
    def sendable(self):
        """Can it be composed? Configuration.Report has a value without an own size: received only"""
        return self.name != "Configuration.Report" and not any(f.kind in RECEIVE_ONLY for f in self.fields)

    def load(self):
        """The class of the code under test"""
        import importlib  # pylint: disable=import-outside-toplevel

        importlib.import_module("pyzwave.commandclass")
        return getattr(importlib.import_module("pyzwave.commandclass." + self.module), self.cls)

    def ints(self):
        """The plain fields"""
        return [f for f in self.fields if f.bits and not f.reserved]


MESSAGES = {s.name: s for s in (Spec(line) for line in SPEC.strip().splitlines())}


class Bits:
    """The most boring bit string"""

    def __init__(self):
        self.text = []

    def put(self, value, bits):
        """Append bits"""
        assert 0 <= value < 1 << bits, (value, bits)
        self.text.append(format(value, "0{}b".format(bits)))

    def put_bytes(self, data):
        """Append bytes"""
        for byte in data:
            self.put(byte, 8)

    def done(self):
        """As bytes"""
        text = "".join(self.text)
        assert len(text) % 8 == 0, len(text)
        return bytes(int(text[i:i + 8], 2) for i in range(0, len(text), 8))


def put_kind(out, field, value, values):
    """Encode a structured field"""
    kind = field.kind
    if kind == "assoc":
        out.put_bytes([n for n, e in value if e is None])
        if any(e is not None for _, e in value):
            out.put(0, 8)
            for node, endpoint in value:
                if endpoint is not None:
                    out.put_bytes([node, endpoint])
    elif kind == "str":
        data = value.encode("utf-8")
        out.put(len(data), 8)
        out.put_bytes(data)
    elif kind == "groups":
        for gid, mode, profile, reserved, event in value:
            out.put(gid, 8)
            out.put(mode, 8)
            out.put(profile, 16)
            out.put(reserved, 8)
            out.put(event, 16)
    elif kind == "pairs":
        out.put(2 * len(value), 8)
        for pair in value:
            out.put_bytes(pair)
    elif kind == "cfg":
        out.put(value, 8 * values["size"])
    elif kind in ("rest", "nif"):
        out.put_bytes(value)
    elif kind == "ip":
        out.put_bytes(ipaddress.IPv6Address(value).packed)
    elif kind in ("dsk16", "dskn"):
        out.put_bytes(value)
    elif kind == "dskp":
        out.put(len(value), 8)
        out.put_bytes(value)
    elif kind == "mask29":
        data = [0] * 29
        for node in value:
            data[(node - 1) >> 3] |= 1 << ((node - 1) & 7)
        out.put_bytes(data)
    elif kind == "sensors":
        data = [0] * (max([(s - 1) // 8 + 1 for s in value] or [1]))
        for sensor in value:
            data[(sensor - 1) >> 3] |= 1 << ((sensor - 1) & 7)
        out.put_bytes(data)
    elif kind == "float":
        raw, precision, scale, size = value
        out.put(precision, 3)
        out.put(scale, 2)
        out.put(size, 3)
        out.put_bytes(raw.to_bytes(size, "big", signed=True))
    elif kind == "meta":
        for metatype, critical, data in value:
            out.put(metatype, 7)
            out.put(critical, 1)
            out.put(len(data), 8)
            out.put_bytes(data)
    elif kind == "lencmd":
        data = encode(*value)
        out.put(len(data), 8)
        out.put_bytes(data)
    elif kind == "cmd":
        if value is not None:
            out.put_bytes(encode(*value))
    else:
        raise AssertionError(kind)


def encode(name, values, reserved=0):
    """Bytes of a message. reserved: 0 or 1, what the reserved bits are filled with"""
    spec = MESSAGES[name]
    out = Bits()
    out.put_bytes(spec.head)
    for field in spec.fields:
        if field.reserved:
            out.put(((1 << field.bits) - 1) if reserved else 0, field.bits)
        elif field.kind:
            put_kind(out, field, values[field.name], values)
        else:
            out.put(values[field.name], field.bits)
    return out.done()


# Example values of the structured fields, from small to odd
IPS = ["::", "fd00:bbbb::2", "::ffff:c0a8:31", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "102:304:506:708:90a:b0c:d0e:f10"]
DSK = [bytes(range(1, 17)), bytes(16), b"\xff" * 16, bytes(range(240, 256))]
KIND_VALUES = {
    "assoc": [[], [(1, None)], [(1, None), (232, None), (2, None)], [(1, 0)], [(5, None), (1, 0), (6, 127)],
              [(1, 0), (1, 1), (232, 255)], [(255, None), (1, 2)], [(i, None) for i in range(1, 20)]],
    "str": ["", "a", "Lifeline", "åäö ✓", "x" * 42],
    "groups": [[], [(1, 0, 0x0001, 0, 0)], [(1, 0, 0xFFFF, 255, 0x1234), (2, 7, 0x2101, 0, 0xFFFF), (255, 255, 0, 0, 0)]],
    "pairs": [[], [[0x20, 1]], [[0x5A, 1], [0x80, 3], [0xEF, 0xFF]]],
    "rest": [b"", b"\x00", b"\xff\x00\x80", bytes(range(256))],
    "ip": IPS,
    "dsk16": DSK,
    "dskn": DSK,
    "dskp": DSK,
    "mask29": [[1], [], [232], [1, 232], list(range(1, 233)), [8, 9, 16, 17], [2, 3, 5, 7, 11, 13, 117, 225]],
    "sensors": [[1], [5], [8, 9], [1, 3, 0x23], [0x28, 0x4F, 0x60], list(range(1, 200))],
    "float": [(0, 0, 0, 1), (-1, 0, 0, 1), (127, 1, 1, 1), (-128, 7, 3, 1), (0x7FFF, 2, 2, 2), (-0x8000, 3, 0, 2),
              (0x7FFFFFFF, 6, 1, 4), (-0x80000000, 5, 2, 4), (215, 1, 0, 2), (-5, 2, 0, 4)],
    "meta": [[], [(0x32, 0, b"name")], [(0x33, 1, b""), (0x00, 1, b"\x01\x02\x03\x04\x05\x06")],
             [(0x7F, 0, b"ignored"), (0x37, 0, b"\x00")], [(0x36, 1, b"\x01"), (0x34, 1, b"\x02"), (0x35, 0, b"\xff")]],
    "nif": [b"", b"\x25", b"\x25\x26\x86\xef\x20"],
    "lencmd": [("Basic.Set", {"value": 255}), ("Basic.Get", {}), ("Version.VersionCommandClassGet", {"requestedCommandClass": 0x86}),
               ("Configuration.BulkReport", {"parameterOffset": 258, "numberOfParameters": 3, "reportsToFollow": 4,
                                            "default": 1, "handshake": 0, "size": 5, "parameter": bytes(range(200))})],
    "cmd": [None, ("Basic.Set", {"value": 255}), ("Basic.Get", {}),
            ("Supervision.Get", {"statusUpdates": 1, "sessionID": 63, "command": ("Basic.Set", {"value": 1})}),
            ("Mailbox.Queue", {"last": 1, "operation": 1, "queueHandle": 200, "mailboxEntry": bytes(range(100))})],
}


def default_values(name):
    """A set of values for all the fields of a message, every one different from its neighbours"""
    spec = MESSAGES[name]
    values = {}
    for i, field in enumerate(spec.fields):
        if field.reserved:
            continue
        if field.kind == "cfg":
            values[field.name] = 0x81
        elif field.kind:
            options = KIND_VALUES[field.kind]
            values[field.name] = options[min(1, len(options) - 1)]
        elif field.bits == 1:
            values[field.name] = i & 1
        else:
            values[field.name] = (0xA5C3960F >> (i % 5)) & ((1 << field.bits) - 1)
    fixup(name, values)
    return values


def fixup(name, values):
    """Fields that depend on other fields"""
    spec = MESSAGES[name]
    for field in spec.fields:
        if field.kind == "cfg":
            if values.get("size") not in (1, 2, 4):
                values["size"] = 1
        elif field.kind == "dskn":
            values[[f.name for f in spec.fields if f.bits == 5][0]] = len(values[field.name])
        elif field.kind == "groups":
            values["groupCount"] = len(values[field.name])
        elif field.kind == "nif":
            values["nodeInfoLength"] = len(values[field.name]) + 7
    if name == "Zip.ZipPacket":
        values["headerExtIncluded"] = 0
        values["zwCmdIncluded"] = int(values["command"] is not None)
    return values


DEPENDENT = {"Configuration.Set": ["size"], "Configuration.Report": ["size"],
             "Zip.ZipPacket": ["headerExtIncluded", "zwCmdIncluded"],
             "AssociationGrpInfo.GroupInfoReport": ["groupCount"],
             "NodeProvisioning.ListIterationReport": ["dskLengthN"],
             "NetworkManagementInclusion.SmartStartJoinStartedReport": ["dskLength"],
             "NetworkManagementInclusion.IncludedNIFReport": ["dskLength"],
             "NetworkManagementInclusion.NodeAddStatus": ["nodeInfoLength"]}


def independent(spec):
    """The plain fields that can take every value whatever the rest of the message is"""
    return [f for f in spec.ints() if f.name not in DEPENDENT.get(spec.name, ())]


def instantiate(name, values):
    """Message object of the code under test"""
    spec = MESSAGES[name]
    kwargs = {}
    for field in spec.fields:
        if field.reserved:
            continue
        kwargs[field.name] = native(field, values[field.name])
    return spec.load()(**kwargs)


def native(field, value):
    """How a user gives the value of a field"""
    if field.kind == "assoc":
        return [node if endpoint is None else (node, endpoint) for node, endpoint in value]
    if field.kind == "ip":
        return ipaddress.IPv6Address(value)
    if field.kind in ("lencmd", "cmd"):
        return None if value is None else instantiate(*value)
    return value


def observe(field, got):
    """Value read from a decoded message, comparable to the value in the model"""
    kind = field.kind
    if kind is None:
        return int(got)
    if kind == "cfg":
        return int(got)
    if kind == "assoc":
        return [(int(n), None if e is None else int(e)) for n, e in got]
    if kind == "str":
        return str(got)
    if kind == "groups":
        return [(int(g.groupingIdentifier), int(g.mode), int(g.profile), int(g.eventCode)) for g in got]
    if kind == "pairs":
        return [[int(a), int(b)] for a, b in got]
    if kind == "rest":
        return bytes(got)
    if kind == "nif":
        return bytes(got)
    if kind == "ip":
        return str(ipaddress.IPv6Address(int(got)))
    if kind in ("dsk16", "dskn", "dskp"):
        text = str(got) if not hasattr(got, "__getstate__") else got.__getstate__()
        if not text:
            return b""
        return b"".join(int(word).to_bytes(2, "big") for word in text.split("-"))
    if kind in ("mask29", "sensors"):
        return sorted(int(x) for x in got)
    if kind == "float":
        return (float("%.12g" % float(got)), int(got.scale))
    if kind == "meta":
        return sorted((int(k), bytes(v)) for k, v in got.items())
    raise AssertionError(kind)


KNOWN_META = {0x00, 0x01, 0x02, 0x03, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37}


def expected(field, value):
    """Value in the model, comparable to what observe() returns"""
    kind = field.kind
    if kind == "assoc":
        return [x for x in value if x[1] is None] + [x for x in value if x[1] is not None]
    if kind == "groups":
        return [(a, b, c, e) for a, b, c, _d, e in value]
    if kind == "ip":
        return str(ipaddress.IPv6Address(value))
    if kind in ("mask29", "sensors"):
        return sorted(value)
    if kind == "float":
        raw, precision, scale, _size = value
        return (float("%.12g" % (raw / 10 ** precision)), scale)
    if kind == "meta":
        return sorted((k, v) for k, _c, v in value if k in KNOWN_META)
    return value
