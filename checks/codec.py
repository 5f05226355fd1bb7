"""Shared by the checks of the wire format"""
import contextlib
import itertools
import os

from mc import wire
from mc.explore import Violation

import pyzwave.commandclass  # pylint: disable=unused-import
from pyzwave.message import Message


@contextlib.contextmanager
def quiet():
    """Mailbox.NodeFailing prints"""
    with open(os.devnull, "w") as null, contextlib.redirect_stdout(null):
        yield


def domain(bits, full=False):
    """
    Every value of a field of up to 8 (full: 16) bits; of a wider one every value of each of its bytes with the others
    all zero and all one
    """
    if bits <= (16 if full else 8):
        return range(1 << bits)
    values = set()
    for shift in range(0, bits, 8):
        for byte in range(256):
            values.add(byte << shift)
            values.add((((1 << bits) - 1) ^ (0xFF << shift)) | byte << shift)
    return sorted(values)


def corners(bits):
    """Boundary values of a field"""
    top = (1 << bits) - 1
    return sorted({0, 1, top, top - 1 if top else 0, top >> 1, (top >> 1) + 1, 0xA5A5A5A5 & top, 0x5A5A5A5A & top} & set(
        range(top + 1)) if bits <= 16 else {0, 1, top, top - 1, top >> 1, 0xA5A5A5A5, 0x01020304})


def backgrounds(name):
    """What the other fields of the message hold"""
    spec = wire.MESSAGES[name]
    result = [wire.default_values(name)]
    for fill in (0, 1):
        values = wire.default_values(name)
        for field in wire.independent(spec):
            values[field.name] = ((1 << field.bits) - 1) if fill else 0
        for field in spec.fields:
            if field.kind and field.kind != "cfg":
                values[field.name] = wire.KIND_VALUES[field.kind][-1 if fill else 0]
        result.append(wire.fixup(name, values))
    return result


def assignments(name, full=False):
    """All the values the message is tried with"""
    spec = wire.MESSAGES[name]
    fields = wire.independent(spec)
    # Every value of every field
    for base in backgrounds(name):
        yield base
        for field in fields:
            for value in domain(field.bits, full):
                yield dict(base, **{field.name: value})
        for field in spec.fields:
            if field.kind and field.kind != "cfg":
                for value in wire.KIND_VALUES[field.kind]:
                    yield wire.fixup(name, dict(base, **{field.name: value}))
        if name == "Zip.ZipPacket":
            break
    # All combinations of the fields sharing a byte
    for group in shared_bytes(spec):
        group = [f for f in group if f in fields]
        for combo in itertools.product(*[range(1 << f.bits) for f in group]):
            yield dict(backgrounds(name)[0], **{f.name: v for f, v in zip(group, combo)})
    # All pairs of fields
    for one, two in itertools.combinations(fields, 2):
        for a, b in itertools.product(corners(one.bits), corners(two.bits)):
            yield dict(backgrounds(name)[0], **{one.name: a, two.name: b})
    # The variable size values
    if any(f.kind == "cfg" for f in spec.fields):
        for size in (1, 2, 4):
            for value in domain(8 * size, full):
                for base in backgrounds(name)[:1 if size > 1 else 3]:
                    yield dict(base, size=size, value=value)


def shared_bytes(spec):
    """The fields that share a byte"""
    groups, pos, current = [], 0, []
    for field in spec.fields:
        if field.kind:
            pos = 0
            continue
        if not field.reserved and field.bits < 8:
            current.append(field)
        pos += field.bits
        if pos % 8 == 0:
            if len(current) > 1:
                groups.append(current)
            current = []
    return groups


def printed(key):
    """A device specific key as it is printed on the device"""
    return "-".join("{:05d}".format(key[i] << 8 | key[i + 1]) for i in range(0, 16, 2))


def decode(data):
    """Decode with the code under test"""
    with quiet():
        return Message.decode(data)


def check_fields(name, msg, values, where="", reached=None):
    """The decoded message holds the values"""
    spec = wire.MESSAGES[name]
    if type(msg) is not spec.load():
        raise Violation("decode:type:" + name, "{} decoded as {!r} {}".format(name, msg, where))
    for i, field in enumerate(spec.fields):
        if field.reserved:
            continue
        got = getattr(msg, field.name)
        if reached is not None and i >= reached:
            if not unset(field, got):
                raise Violation("decode:unset:" + name, "{}.{} is {!r} but not on the wire {}".format(
                    name, field.name, got, where))
            continue
        if field.kind in ("lencmd", "cmd"):
            want = values[field.name]
            if want is None:
                if got is not None:
                    raise Violation("decode:value:" + name, "{}.{} is {!r} {}".format(name, field.name, got, where))
                continue
            check_fields(want[0], got, want[1], where)
            continue
        want = wire.expected(field, values[field.name])
        if got is None and field.kind in EMPTY and not len(want):
            # Nothing of it was left in the frame
            continue
        try:
            have = wire.observe(field, got)
        except (TypeError, ValueError, AttributeError) as error:
            raise Violation("decode:value:" + name, "{}.{} is {!r} ({}), not {!r} {}".format(
                name, field.name, got, error, want, where)) from None
        if not same(field, have, want):
            raise Violation("decode:value:" + name, "{}.{} is {!r}, not {!r} {}".format(
                name, field.name, have, want, where))


EMPTY = ("rest", "assoc", "meta", "nif", "groups", "cmd", "dskn")


def same(field, have, want):
    """Equal?"""
    if field.kind == "float":
        return have[1] == want[1] and abs(have[0] - want[0]) <= 1e-12 * abs(want[0])
    return have == want


def unset(field, got):
    """Is this what a field looks like when it was not on the wire?"""
    return got is None or (field.kind in ("rest", "assoc", "meta", "nif", "cmd") and not len(got))
