"""C01: messages are composed exactly as the specification lays them out"""
import itertools

from mc import report, wire
from mc.explore import Violation

from . import codec

LEVEL = "model_checking"
RULE = ("a case is one message with one value per field: every value of every field on three backgrounds, every "
        "combination of the fields sharing a byte, all pairs of corner values, all examples of the structured fields, every "
        "key given as text, every single-step change of a composed message or of one "
        "inside of it, and every ordered pair of messages composed in the same process. "
        "The bytes are compared with the ones of the hand written model of the specification")
ASSUMPTIONS = ["32 bits fields: every value of each byte with the others all zero and all one"]

SENDABLE = [n for n, s in wire.MESSAGES.items() if s.sendable]


def compare(name, values, msg, how):
    """The code and the model agree"""
    want = wire.encode(name, values)
    try:
        got = msg.compose()
    except Exception as error:  # pylint: disable=broad-except
        raise Violation("compose:error:" + name, "{} {} {}: {!r}".format(name, values, how, error)) from None
    if bytes(got) != want:
        raise Violation("compose:" + name, "{} {} {}: {} not {}".format(name, values, how, bytes(got).hex(), want.hex()))


def build(name, values):
    """Message object, any refusal of valid values is a violation"""
    try:
        return wire.instantiate(name, values)
    except Exception as error:  # pylint: disable=broad-except
        raise Violation("compose:refused:" + name, "{} {}: {!r}".format(name, values, error)) from None


def layout(ch, name):
    """Every value of every field"""
    last = None
    for values in codec.assignments(name, report.thorough()):
        compare(name, values, build(name, values), "")
        last = values
        ch.case()
    return (name, repr(last))


def history(ch, name):
    """A message object that is composed, changed one field at the time and composed again"""
    spec = wire.MESSAGES[name]
    count = 0
    grounds = codec.backgrounds(name)
    for first in grounds:
        for second in grounds:
            if name == "Zip.ZipPacket" and (first["command"] is None or second["command"] is None):
                continue
            values = dict(first)
            msg = build(name, values)
            compare(name, values, msg, "first")
            compare(name, values, msg, "again")
            for field in spec.fields:
                if field.reserved or field.kind == "cfg" or field.name in wire.DEPENDENT.get(name, ()):
                    continue
                if second[field.name] is None:
                    continue
                setattr(msg, field.name, wire.native(field, second[field.name]))
                values[field.name] = second[field.name]
                compare(name, values, msg, "after setting " + field.name)
                count += 1
            # An empty object given its values one by one
            msg = spec.load()()
            for field in spec.fields:
                if not field.reserved and second[field.name] is not None:
                    setattr(msg, field.name, wire.native(field, second[field.name]))
            if not any(second.get(f.name) is None for f in spec.fields if not f.reserved):
                compare(name, second, msg, "set one by one")
            count += 1
    ch.case(count)
    return (name, count)


def pairs(ch, name):
    """No message affects the next one, whatever was composed or decoded before it"""
    for other in SENDABLE:
        for ground in codec.backgrounds(name)[::2]:
            data = wire.encode(name, ground)
            compare(name, ground, build(name, ground), "")
            codec.decode(data)
            values = wire.default_values(other)
            compare(other, values, build(other, values), "after " + name)
            ch.case(2)
    return (name,)


def texts(ch, name):
    """A device specific key can be given as the text printed on the device: eight groups of five digits"""
    field = next(f.name for f in wire.MESSAGES[name].fields if f.kind in ("dsk16", "dskp"))
    for position in range(16):
        for fill in (0, 0xFF, 0x5A):
            for value in range(256):
                key = bytearray([fill] * 16)
                key[position] = value
                values = dict(codec.backgrounds(name)[0], **{field: bytes(key)})
                compare(name, values, build(name, dict(values, **{field: codec.printed(key)})), "as text")
                ch.case()
    return (name,)


def within(ch, name):
    """A message inside of another one that is changed between two compositions"""
    field = next(f for f in wire.MESSAGES[name].fields if f.kind in ("lencmd", "cmd"))
    for inner in SENDABLE:
        if any(f.kind == "cfg" for f in wire.MESSAGES[inner].fields):
            continue
        grounds = codec.backgrounds(inner)
        for first, second in itertools.permutations(grounds, 2):
            if inner == "Zip.ZipPacket" and (first["command"] is None or second["command"] is None):
                continue
            values = wire.fixup(name, dict(codec.backgrounds(name)[0], **{field.name: (inner, first)}))
            if size(inner, first) > 255 or size(inner, second) > 255:
                continue
            msg = build(name, values)
            compare(name, values, msg, "before the change inside")
            inside = getattr(msg, field.name)
            for part in wire.MESSAGES[inner].fields:
                if part.reserved or second[part.name] is None or part.name in wire.DEPENDENT.get(inner, ()):
                    continue
                setattr(inside, part.name, wire.native(part, second[part.name]))
                first = dict(first, **{part.name: second[part.name]})
                values[field.name] = (inner, first)
                compare(name, values, msg, "after setting {} inside".format(part.name))
                ch.case()
    return (name,)


def size(name, values):
    """Bytes of a message"""
    return len(wire.encode(name, values))


SCENARIOS = {"within": within, "texts": texts, "layout": layout, "history": history, "pairs": pairs}


def jobs(_thorough):
    """All of it is done by both tiers"""
    return [("within", {"name": name}, None) for name in ("Supervision.Get", "Zip.ZipPacket")] + [("texts", {"name": name}, None) for name in SENDABLE if any(f.kind in ("dsk16", "dskp") for f in wire.MESSAGES[name].fields)] + [
        (kind, {"name": name}, None) for kind in ("layout", "history", "pairs") for name in
            sorted(SENDABLE, key=lambda n: -sum(f.bits or 0 for f in wire.MESSAGES[n].fields))]
