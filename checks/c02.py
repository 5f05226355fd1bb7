"""C02: every received message is decoded to the values that are on the wire"""
from mc import report, wire
from mc.explore import Violation

from . import codec

LEVEL = "model_checking"
RULE = ("a case is one received frame: every value of every field on three backgrounds, combinations of the fields sharing a "
        "byte, pairs of corner values, examples of the structured fields, each with the reserved bits zero and set, every "
        "truncation, every key as text, every type, rate, precision and scale of a meter, and the same frame "
        "again after the program changed what it got from it before; values of two frames are "
        "compared with each other. The fields are compared with the hand written model, and so are the bytes of composing it again")
ASSUMPTIONS = ["truncation inside a multi-byte field: the frame is refused or the field is unset, never another value"]


def recompose(name, msg, values, where):
    """Composing what was received gives the same bytes"""
    want = wire.encode(name, values)
    try:
        got = bytes(msg.compose())
    except Exception as error:  # pylint: disable=broad-except
        raise Violation("recompose:error:" + name, "{} {}: {!r}".format(name, where, error)) from None
    if got != want:
        raise Violation("recompose:" + name, "{} {}: {} not {}".format(name, where, got.hex(), want.hex()))


def values_(ch, name):
    """Every value of every field"""
    spec = wire.MESSAGES[name]
    for values in codec.assignments(name, report.thorough()):
        for reserved in (0, 1):
            data = wire.encode(name, values, reserved)
            where = data.hex()
            try:
                msg = codec.Message.decode(data) if name != "Mailbox.NodeFailing" else codec.decode(data)
            except Exception as error:  # pylint: disable=broad-except
                raise Violation("decode:error:" + name, "{}: {!r}".format(where, error)) from None
            codec.check_fields(name, msg, values, where)
            if spec.sendable:
                if values.get("command", 1) is not None:
                    recompose(name, msg, values, where)
            ch.case()
    return (name,)


def truncated(ch, name):
    """Every truncation"""
    spec = wire.MESSAGES[name]
    outcomes = set()
    for values in codec.backgrounds(name):
        for reserved in (0, 1):
            data = wire.encode(name, values, reserved)
            # The byte position where each field starts
            starts, out = [], wire.Bits()
            out.put_bytes(spec.head)
            for field in spec.fields:
                starts.append(sum(len(t) for t in out.text))
                if field.reserved:
                    out.put(0, field.bits)
                elif field.kind:
                    wire.put_kind(out, field, values[field.name], values)
                else:
                    out.put(values[field.name], field.bits)
            starts.append(sum(len(t) for t in out.text))
            for cut in range(2, len(data)):
                reached = sum(1 for end in starts[1:] if end <= cut * 8)
                inside = starts[reached] != cut * 8
                kind = spec.fields[reached].kind
                if inside and kind in ("rest", "assoc", "nif", "meta", "cmd", "sensors"):
                    continue  # Something shorter, but complete
                where = "{} cut at {}".format(data.hex(), cut)
                ch.case()
                try:
                    msg = codec.decode(data[:cut])
                except Exception as error:  # pylint: disable=broad-except
                    if inside:
                        outcomes.add("refused")
                        continue
                    if kind in ("groups", "pairs", "str", "mask29", "float", "lencmd", "cfg"):
                        continue
                    raise Violation("truncated:error:" + name, "{}: {!r}".format(where, error)) from None
                codec.check_fields(name, msg, values, where, reached)
                outcomes.add(reached)
    return (name, repr(sorted(map(str, outcomes))))


def unknown(ch, first):
    """Messages nobody knows keep their command class and command"""
    known = {s.head for s in wire.MESSAGES.values()}
    for second in range(256):
        if bytes([first, second]) in known:
            continue
        for tail in (b"", b"\x00", b"\x01\x02\x03"):
            msg = codec.decode(bytes([first, second]) + tail)
            if msg.hid() != first << 8 | second or msg.cmdClass() != first:
                raise Violation("decode:unknown", "{:02x}{:02x} is {!r}".format(first, second, msg))
            ch.case()
    return (first,)


def meter(ch, first):
    """The scale of a meter report is made of three bits in two bytes"""
    for second in range(256):
        size = second & 7
        if size not in (1, 2, 4):
            continue
        for value in (0, 1, -1, 127, -128, (1 << 8 * size - 1) - 1, -(1 << 8 * size - 1)):
            data = bytes([0x32, 0x02, first, second]) + value.to_bytes(size, "big", signed=True) + b"\x01\x02"
            msg = codec.decode(data)
            got = (int(msg.scale), int(msg.rateType), int(msg.meterType), bool(msg.scale2), int(msg.deltaTime))
            want = ((first >> 7) << 2 | second >> 3 & 3, first >> 5 & 3, first & 31, bool(first & 0x80), 0x102)
            if got != want:
                raise Violation("decode:value:Meter.Report", "{}: (scale, rate, type, bit, time) {} instead of {}".format(data.hex(), got, want))
            if abs(float(msg.meterValue) - value / 10 ** (second >> 5)) > 1e-9 * abs(value):
                raise Violation("decode:value:Meter.Report", "{}: {!r}".format(data.hex(), msg.meterValue))
            ch.case()
    return first


def texts(ch, name):
    """A device specific key reads like the text printed on the device: eight groups of five digits"""
    field = next(f.name for f in wire.MESSAGES[name].fields if f.kind in KEYS)
    for position in range(16):
        for fill in (0, 0xFF, 0x5A):
            for value in range(256):
                key = bytearray([fill] * 16)
                key[position] = value
                values = wire.fixup(name, dict(codec.backgrounds(name)[0], **{field: bytes(key)}))
                got = getattr(codec.decode(wire.encode(name, values)), field)
                if got != codec.printed(key) or str(got) != codec.printed(key):
                    raise Violation("decode:text:" + name, "{} reads {!r}".format(bytes(key).hex(), got))
                ch.case()
    return (name,)


def twice(ch, name):
    """The same bytes say the same again, whatever the program did to what it got from them before"""
    for values in codec.backgrounds(name):
        data = wire.encode(name, values)
        first = codec.decode(data)
        second = codec.decode(bytes(bytearray(data)))
        codec.check_fields(name, first, values, "decoded")
        for other in codec.backgrounds(name):
            spoil(name, first, other)
            codec.check_fields(name, second, values, "after the other one was changed")
            codec.check_fields(name, codec.decode(data), values, "decoded again")
            ch.case()
    return (name,)


def spoil(name, msg, values):
    """Change everything of a message"""
    for field in wire.MESSAGES[name].fields:
        if field.reserved or values[field.name] is None:
            continue
        if field.kind in ("lencmd", "cmd"):
            if getattr(msg, field.name) is not None and world_name(getattr(msg, field.name)):
                inner = world_name(getattr(msg, field.name))
                for ground in codec.backgrounds(inner):
                    spoil(inner, getattr(msg, field.name), ground)
            continue
        if field.bits:
            setattr(msg, field.name, values[field.name])
        elif isinstance(getattr(msg, field.name), (list, bytearray)):
            del getattr(msg, field.name)[:]


def world_name(msg):
    """The name of the class of a message"""
    return next((n for n, s in wire.MESSAGES.items() if type(msg) is s.load()), None)


def equal(ch, name):
    """Values of two frames are equal when the same is on the wire"""
    spec = wire.MESSAGES[name]
    for field in spec.fields:
        if field.reserved or field.kind or field.name in wire.DEPENDENT.get(name, ()):
            continue
        seen = []
        for value in sorted(set(codec.domain(field.bits)) if field.bits <= 6 else set(codec.corners(field.bits))):
            for ground in codec.backgrounds(name):
                values = wire.fixup(name, dict(ground, **{field.name: value}))
                got = getattr(codec.decode(wire.encode(name, values)), field.name)
                if got is not None:
                    seen.append((values[field.name], got))
        for one, have in seen:
            for other, got in seen:
                if (have == got) != (one == other) or (have != got) != (one != other):
                    raise Violation("decode:equal:" + name, "{}: {!r} of {} and {!r} of {}".format(field.name, have, one, got, other))
                ch.case()
            if have != one or one != have:
                raise Violation("decode:equal:" + name, "{}: {!r} is not {}".format(field.name, have, one))
    return (name,)


KEYS = ("dsk16", "dskn", "dskp")
SCENARIOS = {"equal": equal, "twice": twice, "texts": texts, "values": values_, "truncated": truncated, "unknown": unknown, "meter": meter}


def jobs(_thorough):
    """All of it is done by both tiers"""
    names = sorted(wire.MESSAGES, key=lambda n: -sum(f.bits or 0 for f in wire.MESSAGES[n].fields))
    return ([(kind, {"name": name}, None) for kind in ("values", "truncated", "twice", "equal") for name in names]
            + [("unknown", {"first": first}, None) for first in range(256)]
            + [("texts", {"name": name}, None) for name in names if any(f.kind in KEYS for f in wire.MESSAGES[name].fields)]
            + [("meter", {"first": first}, None) for first in range(256)])
