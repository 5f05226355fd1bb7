"""Writes notes.json: technique and limits per property (run by hand)"""
import json
import pathlib

SPACE = "Every case within the bounds in the evidence is executed on the code itself; "
T = {
    "C01": ("exhaustive enumeration of field values, compared with an independent model of the wire format",
            "fields wider than 8 bits take every value of each byte and corner values, not all combinations"),
    "C02": ("exhaustive enumeration of received frames and their truncations, compared with an independent model of the wire format",
            "fields wider than 8 bits take every value of each byte and corner values; the size of a float is not observable"),
    "C03": ("exhaustive fault enumeration over datagrams (all short ones, all truncations, all one-byte corruptions) at every moment of a request, on the "
            "real code under a controlled event loop",
            "corruptions of two or more bytes are covered only where a truncation or a short datagram is one"),
    "C04": ("exhaustive enumeration of out-of-range values and of bit stream programs, compared with a string of bits", "programs are bounded in length"),
    "C05": ("exhaustive enumeration of option sequences on the three sockets of the real code under a controlled event loop",
            "at most three options (four when thorough) of the alphabet in one extension"),
    "C06": ("stateless model checking: all schedules of acks and reports within a deviation bound on the real code under a controlled event loop, judged by "
            "the arrival log", "events exactly at a deadline may go either way and are not judged"),
    "C07": ("stateless model checking: all interleavings of waits, arrivals and cancellations on the real code under a controlled event loop, judged by the "
            "arrival log", "up to three waits and three messages"),
    "C08": ("stateless model checking: all response sequences at all relative times on the real code under a controlled event loop, against a timer automaton",
            "up to three (thorough: four) responses and three sends"),
    "C09": ("exhaustive enumeration of long histories of sends on the real code, against the set of numbers in use", "at most 250 messages queued at once"),
    "C10": ("exhaustive enumeration of packet sequences against pending waits on the real code under a controlled event loop, against a delivery model",
            "up to three packets and two waits"),
    "C11": ("stateless model checking: all overlaps and reply orders of the operations on the real code under a controlled event loop, against a reference "
            "model", "overlaps of two (some of three) operations"),
    "C12": ("stateless model checking: all answers of the address lookup within a deviation bound on the real code under a controlled event loop",
            "up to three deviations from a healthy gateway"),
    "C13": ("exhaustive enumeration of unsolicited packets and sequences with node list changes on the real code under a controlled event loop",
            "sequences of up to four steps"),
    "C14": ("exhaustive enumeration of timed histories on the real code under a virtual clock, against a timer automaton", "up to four steps of the alphabet"),
    "C15": ("stateless model checking: all histories of overlapping node lists and lost replies on the real code under a controlled event loop, replayed "
            "against a model of an application", "three nodes, up to three updates"),
    "C16": ("exhaustive enumeration of sources, sessions and handler combinations on the real code under a controlled event loop, against a routing model",
            "up to three overlapping commands"),
    "C17": ("exhaustive enumeration of lock programs on the real code, against a counter and a dirty flag", "up to three locks"),
    "C18": ("exhaustive fault enumeration over the interviews of the real code under a controlled event loop, against a model of each interview",
            "up to the given number of faults per interview"),
    "C19": ("exhaustive enumeration of node information frames, against a model", "frames up to the given length over an alphabet of classes"),
    "C20": ("exhaustive enumeration of supported types, scales and reports on the real code under a controlled event loop, against a model",
            "values of four bytes take corner values"),
    "C21": ("stateless model checking: all histories and schedules of reads, writes and reports on the real code under a controlled event loop, against a "
            "model of the node", "three parameters"),
    "C22": ("exhaustive enumeration of node features, associations and faults on the real code under a controlled event loop, against a model of the node",
            "up to three groups"),
    "C23": ("exhaustive enumeration of report histories and schedules on the real code under a controlled event loop, against a model", "up to three groups"),
    "C24": ("exhaustive enumeration of settings and restart schedules on the real code with real files, against the values stored", "boundary values"),
    "C25": ("crash point enumeration: every prefix and every torn or lost write of the recorded file operations, and every failing operation, on the real code",
            "the file system is the POSIX model described in DESIGN.md: names are changed in order, content is lost unless it was forced to the disk"),
    "C26": ("exhaustive enumeration of listener lists on the real code under a controlled event loop", "up to four listeners (some five)"),
    "C27": ("stateless model checking: all histories of pushes and wake-ups and all failing or overlapping sendings within a deviation bound on the real code "
            "under a controlled event loop, against a queue model", "two queues, three frames, histories up to the given length"),
    "C28": ("stateless model checking: all failing and slow heartbeats within a deviation bound and all timed histories on the real code under a virtual clock, "
            "against a timer model", "one or two frames, an hour"),
    "C29": ("exhaustive enumeration of reports and sequences of them on the real code under a controlled event loop, against a model",
            "sequences of up to three commands (four when thorough)"),
    "C30": ("stateless model checking: all sequences of commands by all ways of sending with all fates within a deviation bound on the real code under a "
            "controlled event loop, and exhaustive enumeration of messages and end points, against the list of commands handed over",
            "sequences of up to three commands"),
    "C31": ("stateless model checking: all fates of the packets of a start within a deviation bound on the real code under a controlled event loop, "
            "against a model of the start", "two deviations (three when thorough)"),
    "C32": ("exhaustive enumeration of reported values and lost reports on the real code under a controlled event loop, against a table",
            "three nodes with two end points each"),
}
pathlib.Path(__file__).with_name("notes.json").write_text(json.dumps(
    {k: {"technique": t, "note": SPACE + "limit: " + n + "."} for k, (t, n) in T.items()}, indent=1) + "\n")
