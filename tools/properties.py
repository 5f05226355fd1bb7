"""Writes properties.jsonl (run by hand when a property changes)"""
import json
import pathlib

P = []


def prop(pid, title, statement, over, text, why, files, mechanism, observe=(), state=()):
    P.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {
            "files": ["pyzwave/" + f for f in files],
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe), "hook_needed": None,
        },
    })


prop("C01", "Messages are composed exactly as the Z-Wave specification lays them out",
     "Composing a message yields its command class and command bytes followed by every field at the bit position, width, "
     "byte order and sign the specification gives it, with all reserved bits zero. This holds for every message that can be "
     "sent and for every value each of its fields can hold.",
     ["inputs"], "every composable message, every value of every field of up to 8 bits and boundary values of the wider ones, all pairs of fields",
     "The tests compose a handful of messages with one value each; a wrong width, shift or neighbour overlap shows only for some values.",
     ["message.py", "types.py", "commandclass"],
     [("attribute driven composer", "Message.compose"), ("bit writer", "types.BitStreamWriter")], ["bytes returned by compose()"])
prop("C02", "Every received message is decoded to the values that are on the wire",
     "Decoding the bytes of any known message gives exactly the field values the specification assigns to those bits, "
     "whatever the reserved bits contain, and a frame that ends early leaves exactly the fields it does not reach unset. "
     "Numbers and flags of two frames compare equal exactly when they are. Composing a decoded message that can also be sent gives the same bytes again, with the reserved bits cleared.",
     ["inputs"], "every known message, every value of every field, reserved bits zero and set, every truncation point at a field boundary",
     "The tests decode one recorded frame per message.",
     ["message.py", "types.py", "commandclass"],
     [("attribute driven parser", "AttributesMixin.parseAttributes"), ("bit reader", "types.BitStreamReader")], ["attributes of Message.decode()"])
prop("C03", "A malformed datagram never disturbs the connection or later datagrams",
     "Whatever bytes arrive on the gateway, node or unsolicited socket, and whatever errors the network reports there, no "
     "exception escapes to the event loop and no connection is given up. A datagram "
     "without a complete Z/IP header, a consistent header extension and a command that decodes completes no pending "
     "operation and reaches no listener with a fabricated message (a report cut short yields at most the failure value), and"
     " every valid datagram after it is handled as if it had never arrived.",
     ["inputs", "histories"], "every truncation and every one-byte corruption of representative datagrams, all short datagrams, on each socket, before and between valid ones; thousands of malformed ones and network errors in a row",
     "The tests feed one or two malformed packets on the gateway socket and none on the unsolicited one.",
     ["zipconnection.py", "zipgateway.py", "adapter.py", "node.py", "message.py"],
     [("decode guard", "ZIPConnection.onPacket, ZIPGateway.onUnsolicitedMessage"), ("incomplete messages", "Node.handleMessage")],
     ["event loop exception handler", "listener calls", "results of pending operations"])
prop("C04", "Values that do not fit in a field are refused, never spilled into others",
     "Composing a message with a value outside the range of its field raises an error instead of emitting a frame in which "
     "that value alters any other field. Reading and writing any sequence of bit fields (within a byte) and byte fields (on "
     "byte boundaries) is equivalent to a big-endian stream of bits, and reading past the end is an error.",
     ["inputs", "programs"], "every composable message and field with values around and far outside its range; all programs of bit and byte reads/writes up to a bound",
     "The tests write a few in-range values.",
     ["types.py", "message.py"], [("range checks", "BitStreamWriter.addBits/addBytes"), ("reader", "BitStreamReader")], ["compose() result or exception"])
prop("C05", "Header extensions never cost the command they come with",
     "A packet carrying any combination and order of header extension options delivers its enclosed command unchanged and every "
     "supported option with the value on the wire. Options and report entries that are unknown and non-critical are skipped; a "
     "packet with an unknown critical option is not processed.",
     ["inputs", "configurations"], "all sequences of up to three options over known, unknown, critical, empty, long and maintenance-report options with all its entry types",
     "The tests decode two recorded extensions.",
     ["commandclass/Zip.py", "zipconnection.py", "zipgateway.py"],
     [("option parser", "HeaderExtension.deserialize, ZIPPacketOption"), ("maintenance report parser", "ZIPPacketOptionMaintenanceReport")],
     ["command delivered to listeners", "header extension passed to listeners"])
prop("C06", "A request returns its report no matter how ack and report interleave",
     "Sending a request and waiting for its report returns that report if it arrives before the deadline, whether it arrives"
     " before, together with or after the acknowledgement. When the report does not arrive in time, or a request to a node "
     "is not acknowledged, a timeout is raised; the result is never a report received before the request was sent or one for"
     " something else than was asked for.",
     ["schedules", "histories"], "all orders and event-loop placements of ack, report, unrelated and earlier reports and timeouts, on the gateway and per node, over consecutive requests",
     "The tests run one order (ack first) with mocks replacing the transport.",
     ["adapter.py", "node.py", "util.py"], [("session before send", "sendAndReceive"), ("waiting sessions", "MessageWaiter")],
     ["return value or TimeoutError of sendAndReceive"])
prop("C07", "Concurrent waiters for the same message never disturb each other",
     "Any number of concurrent waits for the same or different messages each end exactly once: with a message that arrived while "
     "they were waiting, or with a timeout no earlier than asked for. One wait timing out, being cancelled or being answered "
     "never ends, loses or delays another one, and finished waits leave nothing behind.",
     ["schedules", "histories"], "all interleavings of up to three waiters (start, timeout, cancel) with up to three arriving messages",
     "The tests have one waiter at a time.",
     ["util.py"], [("waiting sessions", "MessageWaiter.addWaitingSession/messageReceived/waitForMessage")], ["results of waits"])
prop("C08", "Sending succeeds exactly when that very message was acknowledged in time",
     "Sending a command returns true if and only if a positive acknowledgement carrying its sequence number arrived before its "
     "deadline. A waiting response moves the deadline to the reported delay plus one minute (two minutes plus one when the delay "
     "is negative) counted from that response, however often it is repeated; acknowledgements of other, earlier or unknown "
     "messages change nothing.",
     ["schedules", "histories", "fault_sequences"], "all sequences of up to four responses (ack, nack, waiting with various delays; own, other, unknown sequence number) at all relative times, with up to three concurrent sends",
     "The tests acknowledge one message at one moment.",
     ["adapter.py", "zipconnection.py"], [("ack bookkeeping", "Adapter.ackReceived/waitForAck, Ack"), ("response decoding", "ZIPConnection.onPacket")],
     ["return value and completion time of send"])
prop("C09", "No two messages awaiting acknowledgement share a sequence number",
     "Every packet sent on a connection carries a sequence number that no other packet still awaiting its acknowledgement on that "
     "connection carries, and consecutive packets never carry the same number. Sending keeps working over any number of packets, "
     "with some of them queued for sleeping nodes throughout.",
     ["histories"], "all histories of up to 600 sends with every set of up to three long-lived queued messages at chosen positions, and failed sends in between",
     "The counter wraps after 256 messages; the tests send one.",
     ["zipconnection.py", "adapter.py"], [("sequence numbers", "ZIPConnection.send"), ("outstanding acks", "Adapter.waitForAck")],
     ["sequence numbers on the wire", "results of sends"])
prop("C10", "Every inbound command is delivered exactly once to whoever it is for",
     "A command received on a connection completes the pending waits for it or, when there are none, is given exactly once to every "
     "listener, with the packet it came in. Acknowledgements, keep-alive responses and packets without a command are given to nobody. A "
     "command is acknowledged exactly once if its packet asks for it, and not otherwise.",
     ["histories", "schedules"], "all sequences of up to three packets of every kind against up to two pending waits and three listeners",
     "The tests deliver single packets to mocks.",
     ["zipconnection.py", "adapter.py", "zipgateway.py", "util.py"],
     [("dispatch", "ZIPConnection.onPacket, Adapter.commandReceived"), ("source node", "ZIPGateway.onMessageReceived")],
     ["listener calls", "results of waits"])
prop("C11", "Network management operations work at any time and return their own reply",
     "Node list, node info, end point, capability, failed node and inclusion/exclusion operations send the request the "
     "specification prescribes and return what their own reply says (those without a reply whether they were acknowledged), "
     "in any number, order and overlap. Without a reply they return the documented failure value, and the late reply to one "
     "of the last hundred requests is never returned by a later operation.",
     ["histories", "schedules", "fault_sequences"], "histories of 300 operations, all pairs of overlapping operations with all reply orders, lost and late replies",
     "The tests run each operation once against a mock.",
     ["zipgateway.py", "adapter.py", "commandclass/NetworkManagementProxy.py", "commandclass/NetworkManagementInclusion.py"],
     [("operations", "ZIPGateway.getNodeInfo, getNodeList, ..., removeFailedNode"), ("reply matching", "ZIPGateway.sendAndReceive")],
     ["bytes on the gateway socket", "return values"])
prop("C12", "A node's address and connection belong to that node only",
     "Messages to a node go to the address advertised for that very node, over exactly one connection per node however many "
     "senders start at once. Advertisements that are late, duplicated, for another node or say that the node was not found "
     "never change where a message is sent, and a lost advertisement makes only the operations depending on it fail.",
     ["schedules", "fault_sequences"], "up to three concurrent senders to up to two nodes, with advertisements lost, late, reordered and duplicated",
     "The tests resolve one node with a mocked resolver.",
     ["zipgateway.py"], [("resolver", "ZIPGateway.ipOfNode"), ("connection cache", "ZIPGateway.connectToNode")],
     ["remote address of every socket", "destination of every command"])
prop("C13", "Unsolicited messages reach the listeners with the right node and one ack",
     "An unsolicited packet from a known node is reported to the listeners exactly once with that node, its source end "
     "point, the command and its header extension. If and only if it asks for an acknowledgement exactly one is returned to "
     "its sender, with the same sequence number and the end points swapped; packets from unknown senders are neither "
     "acknowledged nor reported. Node lists are handled by the gateway itself.",
     ["inputs", "histories"], "all flag combinations, sequence numbers and end points, known and unknown senders, repeated packets, around node list changes",
     "The tests deliver one packet from one known and one unknown sender.",
     ["zipgateway.py", "commandclass/Zip.py", "connection.py"],
     [("unsolicited handler", "ZIPGateway.onUnsolicitedMessage"), ("response", "ZipPacket.response")],
     ["datagrams on the unsolicited socket", "listener calls"])
prop("C14", "A connection is kept alive every 25 seconds without traffic",
     "As long as it is connected, a connection that has sent nothing for 25 seconds sends exactly one keep-alive asking for "
     "an acknowledgement, and again 25 seconds later. Any command sent restarts the interval, and neither anything received "
     "nor asking for the address of a node changes it.",
     ["schedules", "histories"], "all histories of up to four sends, received packets and idle periods at chosen times",
     "The tests call the keep-alive function once.",
     ["zipconnection.py"], [("timer", "ZIPConnection.resetKeepAlive/keepAlive")], ["datagrams and their times"])
prop("C15", "Applications see every node appear and disappear exactly once",
     "After any history of node list changes the known nodes are exactly those of the last list, without the controller, "
     "each with its end points. Every node and end point that appeared was announced exactly once, after it became known, "
     "and every one that disappeared was announced as removed exactly once; unchanged nodes keep their state and are not "
     "announced again. Lists replaced while an earlier one is being handled may be skipped.",
     ["histories", "schedules", "fault_sequences"], "all sequences of up to three node lists over a small universe, overlapping in every way with each other, startup and slow or lost replies",
     "The tests apply two non-overlapping updates.",
     ["application.py", "zipgateway.py"], [("node list handling", "ZIPGateway.__handleNodeListReport__"), ("diffing", "Application.nodeListUpdated/startup/loadNode")],
     ["nodeAdded, nodesAdded, nodeRemoved, nodesRemoved calls", "Application.nodes"])
prop("C16", "Node messages reach only their end point and supervision is answered once",
     "A message from a node is handled by exactly the node or end point it came from: offered to the listeners of its "
     "command class and to the waiters, and to the listeners of the node if none of them took it. A supervised command is "
     "handled like the bare command and answered with exactly one report carrying its session, telling success if it was "
     "handled and no support otherwise, even if handling it fails.",
     ["inputs", "histories", "schedules"], "every end point and session id, handled, unhandled and failing handlers, waiters and listeners in all combinations",
     "The tests route single messages to one node.",
     ["application.py", "node.py", "commandclass/CommandClass.py", "commandclass/Supervision.py"],
     [("routing", "Application.messageReceived"), ("dispatch", "Node.handleMessage, CommandClass.handleMessage"), ("supervision", "node.supervision")],
     ["listener calls", "commands sent"])
prop("C17", "Stored settings are signalled once per change, or once after the last lock",
     "Without a storage lock every change of a command class is signalled to the storage immediately. While any lock is held nothing "
     "is signalled; when the last one is released, normally or through an exception, exactly one signal follows if and only if "
     "something changed meanwhile. (An interview is one change, made when it ends, completed or not.)",
     ["programs", "schedules"], "all well-bracketed and overlapping programs of lock, unlock, failing unlock and change up to a depth bound",
     "The tests take one lock once.",
     ["node.py"], [("lock", "Node.storageLock"), ("change signal", "Node.commandClassUpdated")], ["nodeUpdated calls"])
prop("C18", "Interviews respect versions, survive lost reports and record the truth",
     "A command class is interviewed only once its version is known, asking the node for it first when needed. It counts as "
     "interviewed exactly when every report its interview needs was received, whatever reports of other command classes are "
     "lost, and what it then stores is what those reports said. (Of the associations a single group is not needed, of the "
     "group information what is reported later.)",
     ["fault_sequences", "histories"], "every subset and position of lost acks and reports over the interview of every implemented command class, repeated interviews, all versions",
     "The tests interview with all replies present.",
     ["node.py", "commandclass/CommandClass.py", "commandclass/Version.py", "commandclass/ManufacturerSpecific.py", "commandclass/ZwavePlusInfo.py",
      "commandclass/SensorMultilevel.py", "commandclass/Association.py", "commandclass/AssociationGrpInfo.py"],
     [("version gate", "interviewDecorator, CommandClass.requestVersion"), ("interview loop", "Node.interview")],
     ["commands sent", "version, interviewed and the stored attributes"])
prop("C19", "A node information frame is split into supported, secure and controlled",
     "Every command class listed before the control mark is supported and every one after it is only controlled; classes "
     "after the security mark are supported and flagged as requiring security. Marks are never taken for command classes, "
     "and this holds for every frame including empty, truncated and repeated marks. (Two-byte extended command classes are "
     "out of its scope.)",
     ["inputs"], "all frames up to length five over an alphabet of classes and marks and all single classes",
     "The tests parse two frames.",
     ["node.py"], [("parser", "Node.__init__")], ["Node.supported, supports(), securityS0"])
prop("C20", "Sensor reports are passed on exactly when the node supports them",
     "Once the supported types are known, a multilevel sensor report reaches the listeners if and only if its type and scale"
     " were reported as supported, and it then carries the exact value and scale on the wire. Before version 5 every report "
     "is passed on.",
     ["inputs", "histories"], "all sensor types and scales against supported masks, all precisions, sizes and boundary raw values, versions 1 to 11",
     "The tests filter three reports.",
     ["commandclass/SensorMultilevel.py", "types.py", "commandclass/CommandClass.py"],
     [("filter", "SensorMultilevel report handler"), ("value decoder", "types.float_t"), ("type mask", "SensorSupported")],
     ["onReport calls", "supported types after the interview"])
prop("C21", "Configuration values read and written are those of the node",
     "Reading a parameter returns the value the node last reported for that very parameter, asking the node only when no "
     "value is known or the caller insists. Every report updates the value of its own parameter only, and setting a "
     "parameter sends exactly the number, size and value given and leaves the known value until the node reports.",
     ["histories", "schedules", "inputs"], "all histories of up to four reports, cached and forced reads and writes over three parameters, with interleaved reports; all sizes and boundary values",
     "The tests use one parameter and mocked replies.",
     ["commandclass/Configuration.py", "node.py"], [("cache", "Configuration.__report__/get"), ("request", "Configuration.get/set")],
     ["return values", "commands sent", "stored parameters"])
prop("C22", "Associations are read completely and the lifeline is set up exactly when needed",
     "After an interview the association groups are those the node has, each with the nodes and capacity it reported for that group, in however many reports. The "
     "controller is added to the lifeline exactly when the node is Z-Wave Plus, has that group and reported that it does not"
     " list the controller, with the multi channel variant exactly when the node supports multi channel and multi channel "
     "association.",
     ["configurations", "fault_sequences", "inputs"], "all feature combinations, group counts 0 to 3, member lists with and without end points, lost reports",
     "The tests interview two configurations.",
     ["commandclass/Association.py", "commandclass/MultiChannelAssociation.py"],
     [("interview", "Association.interview/interviewGrouping"), ("lifeline", "Association.setupLifeLine"), ("member codec", "Association.Nodes")],
     ["commands sent", "groupings"])
prop("C23", "Association group information is collected from reports in any order",
     "Each reported group gets the profile, name and command list the node reported for it, and name and command list are "
     "requested exactly once per group reported. Reports about unknown groups change nothing, and every change is signalled "
     "for storage.",
     ["histories", "inputs"], "all sequences of up to four reports about up to three groups",
     "The tests feed one fixed sequence.",
     ["commandclass/AssociationGrpInfo.py"], [("collectors", "AssociationGrpInfo report handlers")], ["groupings", "commands sent", "change signals"])
prop("C24", "Settings survive a restart unchanged",
     "Saving a node and loading it into a fresh node with the same command classes restores every command class to equal settings, "
     "version and interview state, and saving it again writes the same content. Loading ignores command classes the node lacks, leaves "
     "the unstored ones untouched, and nothing received while nodes are being loaded replaces the stored settings.",
     ["inputs", "configurations", "histories"], "every command class with settings over boundary and awkward values, all subsets of stored classes, reports at every point of startup",
     "The tests round-trip one class with one value.",
     ["persistantstorage.py", "util.py", "commandclass", "application.py"],
     [("writer and loader", "YamlStorage.nodeUpdated/nodeAdded"), ("state conversion", "AttributesMixin and CommandClass state methods")],
     ["files", "state of the loaded command classes"])
prop("C25", "A crash while saving never loses the previously saved settings",
     "Whatever the moment the process or machine stops during a save, the next start finds either the complete previous "
     "settings or the complete new ones for that node, never a partial or empty file, and settings of other nodes are "
     "untouched. (After a power failure any earlier complete settings count as previous.) A save that fails leaves the "
     "previous settings in place.",
     ["crash_points", "fault_sequences"], "every prefix of the file operations of up to three saves, every torn write, lost unsynced data, every failing operation",
     "The tests never interrupt a save.",
     ["persistantstorage.py"], [("atomic replacement", "YamlStorage.nodeUpdated")], ["content of the settings folder after the crash"])
prop("C26", "One failing listener never affects the others",
     "Every listener that implements a notification is called exactly once per notification, in order of registration among "
     "the synchronous and among the asynchronous ones, with the speaker and the arguments, whatever the others do. Asking "
     "returns the answers of all listeners that answered, in that order, even when others fail, synchronously or "
     "asynchronously.",
     ["configurations", "schedules"], "all lists of up to four listeners over sync, async, slow, failing, missing and cancelled handlers",
     "The tests use a single failing synchronous listener.",
     ["util.py"], [("speaking", "Listenable.speak/ask")], ["calls and returned answers"])
prop("C27", "Mailbox entries are delivered in order, each once, and never lost",
     "Frames pushed for a sleeping node and confirmed to the proxy are delivered after it wakes up in the order they were "
     "pushed, each exactly once, the last one flagged as last, and an empty mailbox is answered with an empty last frame. A "
     "duplicate of a queued frame is discarded, a frame whose delivery failed stays queued first in line, and queues do not "
     "affect each other.",
     ["histories", "schedules", "fault_sequences"], "all sequences of up to five pushes, wake-ups and acks over two queues, with failing and overlapping deliveries",
     "The tests push and pop one entry.",
     ["mailbox.py"], [("queue", "MailboxService push and pop"), ("duplicate check", "QueueItem.checksum")], ["commands sent to the proxy"])
prop("C28", "Mailbox heartbeats run for exactly as long as a frame is queued",
     "For every queued frame a waiting notification is sent every 60 seconds, every tenth being a ping instead, carrying that frame and "
     "queue. They continue when one could not be sent and stop when the frame is delivered; frames that were not queued have none.",
     ["schedules", "histories", "fault_sequences"], "up to 25 minutes with up to two frames, delivery at every heartbeat boundary, failing heartbeats",
     "The tests patch the clock and observe ten notifications of one entry.",
     ["mailbox.py"], [("heartbeat task", "QueueItem")], ["commands sent and their times"])
prop("C29", "Inclusion and exclusion progress is reported completely and in kind",
     "Every inclusion or exclusion status received on the connection to the gateway is reported to the application listeners"
     " exactly once as what it is, and a completed exclusion of a node outside the network (node 0) is also reported as the "
     "removal of node 0. Other commands from the gateway are offered once to the listeners, and only those accepted count as"
     " handled.",
     ["inputs", "histories"], "all status codes and node ids, sequences of up to three commands, listeners accepting, declining or failing",
     "The tests deliver one status of each kind.",
     ["application.py", "adapter.py"], [("status handling", "Application.onMessageReceived")], ["application listener calls", "handled result"])

prop("C30", "A command leaves unchanged, once, in order and for the right end point",
     "Sending a command to the gateway, a node or one of its end points emits exactly one packet, to that receiver, which carries the "
     "bytes of that command, the end points asked for and a request for an acknowledgement. Commands handed over one after the other for one "
     "receiver leave in that order. Nothing is sent again when it is not acknowledged, and nothing at all for a command that cannot be "
     "composed or a node whose address was not found.",
     ["inputs", "schedules", "fault_sequences"], "every message, all ways of sending, all end points, sequences of up to three commands with faults",
     "The tests look at a few commands on a mocked connection and never at what left for which end point.",
     ["zipconnection.py", "zipgateway.py", "node.py", "adapter.py", "commandclass/CommandClass.py"],
     [("sending", "ZIPConnection.send"), ("routing", "ZIPGateway.sendToNode"), ("end point", "Node.send")], ["bytes on the sockets"])
prop("C31", "Connecting always completes and prepares the gateway",
     "Connecting to the gateway and starting the application complete whichever messages are lost, late or repeated. The mode is asked "
     "for first and set to standalone exactly when another one is reported, then the port listened on is registered once for unsolicited messages, and "
     "then the node list and the address of every node in it are asked for. Whatever was lost, nodes can be listed, reached and heard as "
     "soon as the gateway answers again and has sent its next node list.",
     ["fault_sequences", "schedules", "configurations"], "every fate of up to two of the packets of a start, every mode, networks of up to 231 nodes",
     "The tests mock the connection and answer everything.",
     ["zipgateway.py", "application.py"],
     [("connect", "ZIPGateway.connect"), ("mode", "ZIPGateway.setGatewayMode"), ("registration", "ZIPGateway.setupUnsolicitedConnection"),
      ("startup", "Application.startup")], ["packets sent, in order", "node list and listeners afterwards"])
prop("C32", "Nodes and end points show what the gateway reported about them",
     "Every known node shows the device classes and listening state of its own node information, and every end point the generic and specific "
     "class of its own capability report; there is one for every individual and aggregated end point reported, and what was not "
     "reported is not set. What belongs to the whole device (basic class, listening, FLiRS and failed state) is at any time the same for an end "
     "point as for its node. Removing a node returns true exactly when the gateway reports it as removed.",
     ["inputs", "fault_sequences", "histories"], "every value of every field, every combination of lost information, every later change, every removal status",
     "The tests load one node with one set of values.",
     ["application.py", "node.py", "zipgateway.py"],
     [("loading", "Application.loadNode and loadEndPointNode"), ("inherited state", "NodeEndPoint"), ("removal", "Node.remove")],
     ["attributes of the nodes", "result of remove()"])

if __name__ == "__main__":
    path = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
    path.write_text("".join(json.dumps(p) + "\n" for p in P))
    assert all(len(p["title"]) <= 80 for p in P), [p["title"] for p in P if len(p["title"]) > 80]
    print(len(P))
