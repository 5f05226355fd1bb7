"""C04: values that do not fit are refused, and the bit streams are streams of bits"""
import itertools

from mc import report, wire
from mc.explore import Violation

from . import codec
from pyzwave.types import BitStreamReader, BitStreamWriter

LEVEL = "model_checking"
RULE = ("a case is one out-of-range value in one field of one sendable message on one background, or one program of bit and "
        "byte operations with one set of values; the model is a string of bits")
ASSUMPTIONS = ["bit fields do not cross a byte boundary and byte fields start on one, as in every Z-Wave message",
               "a flag holds the truth of what it is given"]

SENDABLE = [n for n, s in wire.MESSAGES.items() if s.sendable]


def outside(bits):
    """Values that do not fit"""
    top = 1 << bits
    values = {-1, -2, top, top + 1, 2 * top - 1, 2 * top, 3 * top, 4 * top + 1, 255, 256, 257, 511, 512, 0x8000, 0xFFFF, 0x10000,
              0x10001, 1 << 24, 1 << 32, (1 << 32) + 1, 1 << 64, -top, -(1 << 7), -(1 << 8), -(1 << 31)}
    values |= set(range(top, top + 300)) | set(range(-300, 0))
    return sorted(v for v in values if v < 0 or v >= top)


def attempt(name, values, setter):
    """Bytes, or None if it is refused"""
    try:
        if setter is None:
            return bytes(wire.instantiate(name, values).compose())
        msg = wire.instantiate(name, dict(values, **{setter.name: 0}))
        setattr(msg, setter.name, values[setter.name])
        return bytes(msg.compose())
    except Exception:  # pylint: disable=broad-except
        return None


def mask(name, values, field):
    """Which bits of the frame belong to the field"""
    zero = wire.encode(name, dict(values, **{field.name: 0}))
    ones = wire.encode(name, dict(values, **{field.name: (1 << field.bits) - 1}))
    return bytes(a ^ b for a, b in zip(zero, ones)), zero


def refused(ch, name):
    """Every value around and far outside the range of every field"""
    spec = wire.MESSAGES[name]
    seen = set()
    for ground in codec.backgrounds(name):
        for field in spec.ints():
            if field.name in wire.DEPENDENT.get(name, ()) and name != "Configuration.Set":
                continue
            for value in outside(field.bits):
                if field.name == "size":
                    # The value has as many bytes as it says: the frame would be of another size
                    ground = dict(ground, value=0)
                values = dict(ground, **{field.name: value})
                for setter in (None, field):
                    got = attempt(name, values, setter)
                    ch.case()
                    seen.add((field.name, got is None))
                    if got is None:
                        continue
                    bits, zero = mask(name, ground, field) if field.name != "size" else (None, None)
                    if field.bits == 1:
                        if len(got) == len(zero) and all(g & ~m == z & ~m for g, m, z in zip(got, bits, zero)):
                            continue
                    raise Violation("accepted:{}.{}".format(name, field.name), "{}={} {} composes {} (other fields: {})".format(
                        field.name, value, values, got.hex(), zero.hex() if zero else ""))
    return (name, repr(sorted(seen)))


def structured(ch, name):
    """Structured values that cannot be sent"""
    spec = wire.MESSAGES[name]
    bad = {"assoc": [[(256, None)], [(-1, None)], [(1, 256)], [(300, 0)], [(1, -1)], [(1, None), (256, None)]],
           "dsk16": [b"", b"\x01", bytes(15), bytes(17), bytes(32)],
           "dskp": [b"\x01", bytes(15), bytes(17), bytes(255), bytes(256)],
           "ip": [1 << 128, -1, bytes(15), "fd00::1::2"]}
    # Keys as printed, with a group that is not a word
    for kind in ("dsk16", "dskp"):
        bad[kind] = bad[kind] + ["-".join(value if i == position else "00001" for i in range(8))
                                 for position in range(8) for value in ("65536", "65537", "70000", "99999", "131072")]
    for ground in codec.backgrounds(name):
        if any(f.kind == "cfg" for f in spec.fields):
            for size in (1, 2, 4):
                for value in (1 << 8 * size, (1 << 8 * size) + 1, 1 << 33, 1 << 64):
                    ch.case()
                    got = attempt(name, dict(ground, size=size, value=value), None)
                    if got is not None:
                        raise Violation("accepted:{}.value".format(name), "size {} value {}: {}".format(size, value, got.hex()))
        for field in spec.fields:
            if field.kind == "lencmd":
                # The length byte of the enclosed command
                for size in (253, 254, 300, 600):
                    inner = ("Mailbox.Queue", {"last": 0, "operation": 0, "queueHandle": 0, "mailboxEntry": bytes(size)})
                    ch.case()
                    got = attempt(name, dict(ground, **{field.name: inner}), None)
                    if got is not None:
                        raise Violation("accepted:{}.{}".format(name, field.name), "{} bytes: {}".format(size, got[:6].hex()))
            for value in bad.get(field.kind, ()):
                if field.kind == "dsk16" and value == b"":
                    continue  # No key at all
                values = dict(ground)
                ch.case()
                try:
                    kwargs = {f.name: wire.native(f, values[f.name]) for f in spec.fields if not f.reserved}
                    kwargs[field.name] = value if field.kind != "assoc" else wire.native(field, value)
                    got = spec.load()(**kwargs).compose()
                except Exception:  # pylint: disable=broad-except
                    continue
                raise Violation("accepted:{}.{}".format(name, field.name), "{!r}: {}".format(value, bytes(got).hex()))
    return (name,)


def splits(total=8):
    """All the ways to split a byte in bit fields"""
    if total == 0:
        yield ()
        return
    for first in range(1, total + 1):
        for rest in splits(total - first):
            yield (first,) + rest


def take(value, split):
    """The fields of a byte"""
    fields, left = [], 8
    for size in split:
        left -= size
        fields.append((value >> left) & ((1 << size) - 1))
    return fields


def stream(ch, first, seconds, step):
    """Every byte value through every split of it, followed by another unit of bits or bytes"""
    first = tuple(first)
    for value in range(0, 256, step):
        for second in seconds:
            expect = bytes([value])
            writer = BitStreamWriter()
            for part, size in zip(take(value, first), first):
                writer.addBits(part, size)
            other = None
            if second[0] == "bits":
                other = value ^ 0xA5
                for part, size in zip(take(other, tuple(second[1])), second[1]):
                    writer.addBits(part, size)
                expect += bytes([other])
            else:
                _, size, signed, endian = second
                other = ((value << 8 * (size - 1)) | (0x7F01FE80 >> 8 * (4 - size + 1) if size > 1 else 0)) & ((1 << 8 * size) - 1)
                if signed and other >> (8 * size - 1):
                    other -= 1 << 8 * size
                writer.addBytes(other, size, signed, endian)
                expect += other.to_bytes(size, endian, signed=signed)
            for part, size in zip(take(value, first), first):
                writer.addBits(part, size)
            expect += bytes([value])
            ch.case()
            if bytes(writer) != expect:
                raise Violation("writer", "{} {} {}: {} not {}".format(value, first, second, bytes(writer).hex(), expect.hex()))
            reader = BitStreamReader(expect)
            got = [reader.bits(size) for size in first]
            if got != take(value, first):
                raise Violation("reader", "{} {} read as {}".format(value, first, got))
            if reader.bytesLeft() != len(expect) - 1:
                raise Violation("reader:left", "{} after {} of {}".format(reader.bytesLeft(), first, expect.hex()))
            if second[0] == "bits":
                got = [reader.bits(size) for size in second[1]]
                if got != take(other, tuple(second[1])):
                    raise Violation("reader", "{} {} read as {}".format(other, second, got))
            else:
                raw = expect[1:1 + second[1]]
                if bytes(reader.peekValue(second[1])) != raw or bytes(reader.value(second[1])) != raw:
                    raise Violation("reader:value", "{} in {}".format(second, expect.hex()))
            if reader.peekByte() != value or reader.byte(advance=False) != value:
                raise Violation("reader:peek", expect.hex())
            if reader.bytesLeft() != 1 or bytes(reader.remaining(advance=False)) != bytes([value]):
                raise Violation("reader:left", "{} {}".format(second, expect.hex()))
            if reader.byte() != value or reader.bytesLeft() != 0 or bytes(reader.remaining()) != b"":
                raise Violation("reader:last", "{} {}".format(second, expect.hex()))
    return (first, len(seconds))


def overflow(ch, size):
    """A bit or byte field never takes a value that does not fit, whatever was written before it"""
    for before in range(0, 8 - size + 1):
        for value in outside(size):
            writer = BitStreamWriter()
            if before:
                writer.addBits(0, before)
            ch.case()
            try:
                writer.addBits(value, size)
            except Exception:  # pylint: disable=broad-except
                continue
            raise Violation("writer:overflow", "{} in {} bits: {}".format(value, size, bytes(writer).hex()))
    if size <= 4:
        for signed, endian in itertools.product((False, True), ("big", "little")):
            low = -(1 << 8 * size - 1) if signed else 0
            high = (1 << 8 * size - signed) - 1
            for value in (low - 1, high + 1, low - 1000, high + 1000, 1 << 64, -(1 << 64)):
                ch.case()
                writer = BitStreamWriter()
                try:
                    writer.addBytes(value, size, signed, endian)
                except Exception:  # pylint: disable=broad-except
                    continue
                raise Violation("writer:overflow", "{} in {} bytes: {}".format(value, size, bytes(writer).hex()))
    return (size,)


def past_end(ch, length):
    """Reading past the end is an error at every position"""
    data = bytes(range(1, length + 1))
    for start in range(0, length * 8 + 1):
        for size in range(1, 9):
            if start % 8 + size > 8:
                continue
            reader = BitStreamReader(data)
            reader.advance(start)
            ch.case()
            try:
                got = reader.bits(size)
            except Exception:  # pylint: disable=broad-except
                got = None
            want = None
            if start + size <= length * 8:
                want = int("".join(format(b, "08b") for b in data)[start:start + size], 2)
            if got != want:
                raise Violation("end:bits", "{} bits at {} of {}: {}".format(size, start, data.hex(), got))
    for start in range(0, length + 1):
        for size in range(0, length + 3):
            for advance in (True, False):
                reader = BitStreamReader(data)
                reader.advance(start * 8)
                ch.case()
                try:
                    got = bytes(reader.value(size, advance))
                except Exception:  # pylint: disable=broad-except
                    got = None
                want = data[start:start + size] if start + size <= length else None
                if got != want:
                    raise Violation("end:value", "{} bytes at {} of {}: {}".format(size, start, data.hex(), got))
    return (length,)


SCENARIOS = {"refused": refused, "structured": structured, "stream": stream, "overflow": overflow, "past_end": past_end}


def jobs(thorough):
    """Programs: every split of the first byte x every split of the second one or every byte field"""
    every = list(splits())
    fields = [["bytes", size, signed, endian] for size in (1, 2, 3, 4) for signed in (False, True) for endian in ("big", "little")]
    seconds = fields + [["bits", list(s)] for s in every]
    work = [("stream", {"first": list(first), "seconds": seconds, "step": 1 if thorough else 5}, None) for first in every]
    return ([(kind, {"name": name}, None) for kind in ("refused", "structured") for name in SENDABLE] + work
            + [("overflow", {"size": size}, None) for size in range(1, 9)]
            + [("past_end", {"length": length}, None) for length in range(0, 7)])
