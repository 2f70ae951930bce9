#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the JSON stays valid)."""
import json, os
R = "src/messages/receiver.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "No received byte string can crash, hang or abort the message receiver",
  "Whatever bytes arrive from the network, in whatever pieces, the message receiver answers each call with a decoded submessage, a request for more data, or an error. It never panics, aborts the process, or loops without consuming input.",
  ["inputs", "histories"],
  "every byte string (header and submessage headers with every kind, flag byte and length; bodies truncated, extended or hostile) and every split of it over calls",
  "The tests feed eight complete, well-formed messages; no truncated, hostile or unknown input is ever decoded.",
  [R, "src/common/bit_set.rs", "src/structure/locator.rs", "src/messages/submessage_header.rs"],
  [("incremental decode of a message", R), ("bounds-checked reads of submessage bodies", R)],
  [("decoder state", "whether a message header or a submessage is expected next", R)],
  ["result of each decode call", "process outcome"], "re-export of the private modules")

p("C02", "Decoding does not depend on how the bytes are split over reads",
  "Feeding a message to the message receiver in any sequence of pieces yields the same submessages, errors and interpretation state as feeding it whole, provided submessages carry explicit lengths. A call that returns nothing leaves only an incomplete header or submessage in the buffer, and a call never consumes bytes of a submessage that has not arrived completely.",
  ["inputs", "histories"],
  "every message of the alphabet and every composition of its length into read sizes, with repeated calls without new data",
  "Every test hands the whole message to the decoder at once; partial buffers were never exercised.",
  [R], [("stop when the buffered bytes do not complete a header or submessage; keep going when they do", R)],
  [("decoder state", "header or submessage expected next", R)],
  ["decoded submessages", "bytes left in the buffer"], "read access to the interpretation state")

p("C03", "Interpreter submessages set exactly the context RTPS prescribes",
  "After any sequence of submessages the receiver's interpretation context (source version, vendor and GUID prefix; destination prefix; unicast and multicast reply locators; timestamp and its validity) is the one obtained by folding the RTPS rules for the message header, INFO_SRC, INFO_DST, INFO_REPLY, INFO_REPLY_IP4 and INFO_TS over that sequence. An INFO_DST with the unknown prefix selects the receiving participant again, an absent multicast list empties the multicast locators, and all other submessages leave the context untouched.",
  ["histories", "inputs"],
  "every sequence, of any length, of interpreter, entity, pad and unknown submessages from an alphabet of field values, flags and both byte orders",
  "Tests contain at most one interpreter submessage per message; order-dependent effects, flag combinations and overwrites are not covered.",
  [R, "src/messages/info_source.rs", "src/messages/info_destination.rs", "src/structure/time.rs", "src/structure/locator.rs", "src/structure/locator_udp_v4.rs"],
  [("per-submessage updates of the receiver fields", R)],
  [("receiver", "the interpretation context of RTPS 8.3.4", R)],
  ["receiver context after each submessage"], "read access to the interpretation state")

p("C04", "Entity submessages are delivered completely, in order and field by field",
  "Every ACKNACK, GAP, HEARTBEAT, HEARTBEAT_FRAG and NACK_FRAG in a message is delivered exactly once, in message order, with every field (entity ids, sequence and fragment numbers, number sets, counts, and the flags where delivered) equal to what the RTPS layout at its position says in the byte order chosen by its endianness flag. Nothing else is delivered.",
  ["inputs", "histories"],
  "every sequence of submessages up to the bound, both byte orders per submessage, boundary values in every field, every bitmap shape",
  "One fixed value per submessage kind is tested, almost always with an empty number set and small positive numbers.",
  [R, "src/messages/ack_nack.rs", "src/messages/gap.rs", "src/messages/heartbeat.rs", "src/messages/heartbeat_frag.rs", "src/messages/nack_frag.rs"],
  [("dispatch on submessage kind and endianness flag", R)], (), ["decoded submessages"])

p("C05", "Each submessage occupies exactly its declared length; none shifts the rest",
  "A submessage of an unknown kind, a PAD, a submessage longer than its known contents, or one whose contents are rejected consumes exactly its header and its declared length, so that all submessages after it decode as if it had been absent (apart from its own effect). A non-PAD, non-INFO_TS submessage with length zero extends to the end of the message.",
  ["inputs", "histories"],
  "every submessage kind (all 256), flag combination, declared length from the alphabet, in every position of a message up to the bound",
  "No test contains an unknown kind, an over-long body, a non-empty PAD, a rejected body followed by more submessages, or a zero-length last submessage.",
  [R, "src/messages/submessage_header.rs"], [("split off the declared length before interpreting the body", R)], (),
  ["submessages decoded after the odd one", "bytes left in the buffer"])

p("C06", "A rejected header or submessage leaves the interpretation context untouched",
  "When the receiver reports an error for a message header or a submessage, its interpretation context is exactly what it was before that header or submessage. No part of a rejected submessage takes effect.",
  ["inputs", "histories", "fault_sequences"],
  "every context reachable in the alphabet, every interpreter submessage with every truncation or invalid content of its body",
  "No test ever produces a decode error.",
  [R], [("parse the whole submessage before assigning any field", R)],
  [("receiver", "the interpretation context", R)], ["receiver context before and after an error"], "read access to the interpretation state")

p("C07", "Messages are isolated: each is decoded as by a fresh receiver",
  "When one receiver decodes several messages one after the other, each message yields the same submessages and errors as it does on a newly created receiver, whatever the earlier messages contained, and so does its context once its header is accepted. A message ends with a zero-length last submessage or at the end of the input (the end of a datagram).",
  ["histories", "inputs"],
  "every sequence of up to the bound of complete, truncated, malformed and empty messages through one receiver",
  "Every test creates a new receiver for a single message.",
  [R], [("reset of the context by each message header; end of input ends the message", R)],
  [("receiver", "context that must not leak into the next message", R)], ["decoded submessages and context of the later message"], "read access to the interpretation state")

p("C08", "Only RTPS headers of a supported major version open a message",
  "A message header is accepted exactly when its first four bytes are 'RTPS' and its major protocol version is not newer than the supported one, for every minor version, vendor and prefix. An accepted header makes source version, vendor and prefix those it carries; a refused one produces an error and delivers nothing.",
  ["inputs"],
  "all 65536 protocol versions, all magic values within two byte changes of RTPS (thorough: all 2^32), vendor and prefix lanes",
  "Three versions and only the correct magic are tested; no rejected header ever reaches the receiver.",
  ["src/messages/header.rs", "src/messages/protocol_id.rs", "src/messages/protocol_version.rs", R],
  [("header validity", "src/messages/header.rs"), ("refusal in the receiver", R)], (), ["decode result", "receiver context"])

p("C09", "Every wire type has one fixed RTPS layout and survives a round trip",
  "For every protocol type that can be written to and read from the wire, writing a value and reading it back in the same byte order yields the same value, and reading bytes and writing them back yields the same bytes. Multi-byte numbers follow the chosen byte order, byte arrays do not, fields stand in RTPS order, and named constants have their RTPS values; only the bit count of a number set is rounded up to whole words and stray bits beyond it are dropped.",
  ["inputs", "configurations"],
  "all values of 8-, 16- and 32-bit types; for larger types all 256 values of every byte over several base patterns and all pairs of boundary bytes; both byte orders, also crossed",
  "Each type is tested with one to four fixed values; swapped, truncated or sign-extended lanes with other values go unnoticed.",
  ["src/messages", "src/structure", "src/common/bit_set.rs", "src/common/ranged_bit_set.rs"],
  [("reading and writing implementations of each type", "src/structure, src/messages")], (), ["encoded bytes", "decoded fields"], "re-export of the private modules")

p("C10", "Truncated encodings are refused and trailing bytes are ignored",
  "Reading any protocol type from fewer bytes than its encoding fails with an error, never with a value or a panic. Reading it from exactly its encoding, or from its encoding followed by other bytes, yields the value.",
  ["inputs"],
  "every wire type, both byte orders, every strict prefix length and every extension up to the bound of representative and boundary encodings",
  "No test reads from a truncated or over-long buffer.",
  ["src/messages", "src/structure", "src/common"], [("length checks while reading and declared minimum sizes", "src/structure, src/messages, src/common")], (), ["read result"])

p("C11", "A submessage header's length follows its own endianness flag",
  "The 16-bit length in a submessage header is read and written in the byte order given by the header's own endianness flag, whatever byte order the surrounding reader or writer uses. Kind and all eight flag bits are preserved, and setting or clearing flags touches only the named ones.",
  ["inputs", "configurations"],
  "all 2^32 submessage headers under both surrounding byte orders (quick: all flags and lengths for 16 kinds); all flag/mask pairs",
  "Six headers are tested; flag operations are tested on seven of eight bits with all others clear.",
  ["src/messages/submessage_header.rs", "src/messages/submessage_flag.rs", "src/messages/submessage_kind.rs"],
  [("length handled by flag, not by context", "src/messages/submessage_header.rs")], (), ["decoded header", "encoded header"])

p("C12", "Number sets hold exactly the accepted numbers of their 256-wide window",
  "Inserting a sequence or fragment number into a number set succeeds exactly when it lies within 256 numbers from the base and is not yet present. Iterating the set yields every accepted number once, in increasing order, and nothing else, for every base including the extremes of the number range.",
  ["histories", "inputs"],
  "every insertion sequence up to the bound over an offset alphabet around word and window boundaries, every base of the alphabet, every pair of window offsets",
  "Two tests insert a handful of offsets at bases 0 and 100 into plain integers; real sequence and fragment numbers and other bases are never iterated.",
  ["src/common/ranged_bit_set.rs", "src/structure/sequence_number_set.rs", "src/messages/fragment_number_set.rs", "src/common/bit_set.rs"],
  [("window check against the base", "src/common/ranged_bit_set.rs"), ("iteration adds the base back", "src/common/ranged_bit_set.rs")],
  [("set", "bitmap of accepted offsets", "src/common/ranged_bit_set.rs")], ["insert results", "iteration"])

p("C13", "Number sets keep their members across the wire",
  "A number set written to the wire and read back has the same base and iterates over the same numbers as the original, in both byte orders. A received bitmap denotes exactly the numbers whose bits are set among the declared number of bits; bits beyond it do not count, and no base or bitmap makes iteration panic.",
  ["inputs"],
  "every declared bit count up to the bound, every single set bit, all-ones and pair patterns, junk beyond the declared bits, every base of the alphabet",
  "The tests compare decoded sets with an equality that ignores the set's length; decoded sets are never iterated.",
  ["src/common/bit_set.rs", "src/common/ranged_bit_set.rs"],
  [("reading of the bitmap", "src/common/bit_set.rs"), ("iteration of the set", "src/common/ranged_bit_set.rs")], (), ["iteration of the decoded set", "encoded bytes"])

p("C14", "Decoding never allocates out of proportion to the received bytes",
  "The memory allocated while decoding a message or a wire type is bounded by a constant factor of the number of bytes received. Length, count and bit-count fields that promise more than was received lead to an error or to waiting for data, not to a large allocation.",
  ["inputs"],
  "every count/length field of the protocol at all boundary values (powers of two and neighbours up to 2^32-1), with bodies from empty to the bound",
  "No test decodes a count larger than the data that follows.",
  ["src/common/bit_set.rs", "src/structure/locator.rs", "src/messages/submessage_elements/parameter.rs", R],
  [("counts checked against the bytes available before allocating", "src/common/bit_set.rs, src/structure/locator.rs")], (), ["bytes requested from the allocator during one call"])

p("C15", "The history cache behaves as a map from sequence number to change",
  "After any history of adding changes with sequence numbers not currently present and removing sequence numbers, looking up a sequence number finds exactly the change last added under it and not removed since, unaltered. The reported minimum and maximum are those of the sequence numbers present, and none when the cache is empty.",
  ["histories"],
  "every history of adds and removes up to closure of the reachable cache contents over the alphabet, and long ordered histories",
  "Tests perform at most two adds and one remove and check only the number of elements or one extreme.",
  ["src/structure/history_cache.rs", "src/structure/cache_change.rs"],
  [("add, find, retain, min, max over the stored changes", "src/structure/history_cache.rs")],
  [("changes", "the stored changes", "src/structure/history_cache.rs")], ["lookup, minimum and maximum after every step"], "access to the crate-private cache")

p("C16", "Each reader gets every available change once, in sequence order",
  "Repeatedly asking for the next unsent change for a reader returns the changes available at that time in strictly increasing sequence order, never one it returned before, and nothing only when no change newer than the last returned one is available. Listing the unsent changes shows exactly those newer ones and changes nothing, and readers do not influence each other.",
  ["histories"],
  "every interleaving of adding, removing, listing and sending for two readers up to closure over a sequence-number alphabet, in every storage order",
  "Four tests drain one reader over fixed lists of three; interleaving with additions and removals, several readers and large numbers are not covered.",
  ["src/behavior/reader_proxy.rs"],
  [("highest sequence number sent so far", "src/behavior/reader_proxy.rs")],
  [("highest_seq_num_sent", "high-water mark per reader", "src/behavior/reader_proxy.rs")], ["returned changes", "listed changes"])

p("C17", "A stateless writer numbers its changes consecutively and keeps their data",
  "Each change created by a stateless writer carries the sequence number following that of the previous change (or of the configured start), the writer's own GUID, and the kind, data and instance handle given. The writer's record of its last sequence number always equals that of the last change created.",
  ["histories", "configurations"],
  "every history of change creations and locator changes up to the bound, from every starting number of the alphabet, and long runs",
  "The stateless writer has no test at all.",
  ["src/behavior/stateless_writer.rs", "src/behavior/writer.rs", "src/structure/sequence_number.rs"],
  [("increment of the last change sequence number", "src/behavior/stateless_writer.rs")],
  [("last_change_sequence_number", "number of the last change", "src/behavior/writer.rs")], ["created changes", "writer attributes"], "access to the crate-private writer")

p("C18", "Parameters are written 4-byte aligned and read back intact",
  "A written parameter consists of its id, a length that is a multiple of four and equals the number of bytes that follow, the value, and fewer than four zero padding bytes. Reading it back yields the id and the padded value, a run of parameters (including empty ones) reads back in order, and a value too long for the length field is refused rather than corrupted.",
  ["inputs", "histories"],
  "every value length from 0 to the bound and around 65535, several contents, every sequence of parameters up to the bound, every declared length when reading, both byte orders",
  "Only values of 4, 8 and 16 bytes are tested, for which padding never matters.",
  ["src/messages/submessage_elements/parameter.rs", "src/structure/parameter_id.rs"],
  [("padding to four bytes", "src/messages/submessage_elements/parameter.rs")], (), ["encoded bytes", "decoded parameter"], "construction of a parameter")

p("C19", "Timestamps convert to and from system time faithfully or not at all",
  "Converting a system time to a timestamp and back changes it by at most one nanosecond and never makes it later; conversions preserve order and whole seconds. System times before the epoch or beyond the representable range become the invalid timestamp, and invalid or negative timestamps are refused with an error instead of a panic or a wrong time.",
  ["inputs"],
  "all nanosecond boundaries around each second, all fraction boundary patterns, every second of the boundary alphabet over the whole 32-bit range and beyond (thorough: every nanosecond of a second, all 2^32 fractions)",
  "Five fixed pairs are tested; the test for the invalid time asserts nothing.",
  ["src/structure/time.rs"], [("fixed-point scaling of the fraction, range checks", "src/structure/time.rs")], (), ["converted values"])

p("C20", "Durations convert without loss, wrap-around or panic",
  "Converting a standard duration to a protocol duration and back yields the same duration when its seconds fit, and the infinite protocol duration when they do not. Every protocol duration converts to a standard one without panicking, negative ones to zero, non-negative ones to whole seconds plus the fraction in units of 2^-32 second, so that a longer one never becomes shorter.",
  ["inputs"],
  "boundary alphabet of seconds and nanoseconds over the full range of both types, all pairs for order, dense ranges of nanoseconds and fractions",
  "Two fixed conversions are tested; negative, invalid and over-long durations are not.",
  ["src/structure/duration.rs"], [("conversion of seconds and fraction", "src/structure/duration.rs")], (), ["converted values"])

p("C21", "Locators and socket addresses convert without changing the destination",
  "Every specified IPv4 or IPv6 socket address converts to a locator of the matching kind with the same address and port, and back to the same address and port; unspecified addresses become invalid locators and invalid or reserved locators the unspecified address with port zero. A locator whose port is not a UDP port never turns into another port, and the compact IPv4 locator denotes the same destination as the full one.",
  ["inputs"],
  "every port, every single-byte value of every address byte over base patterns, boundary 32-bit ports and addresses, all locator kinds, both directions",
  "Two specified addresses and one port each are tested; no port above 65535 and no compact locator with other than one address.",
  ["src/structure/locator.rs", "src/structure/locator_udp_v4.rs", "src/structure/locator_kind.rs"],
  [("conversions between locator kinds and socket addresses", "src/structure/locator.rs")], (), ["converted values"])

p("C22", "Matched readers and reader locators are exactly those added and not removed",
  "Looking up a matched reader by GUID yields exactly the readers added under that GUID, in the order of addition. Removing a reader locator removes every locator equal to it in all its attributes and no other, and neither operation disturbs the remaining ones.",
  ["histories"],
  "every history of additions, removals and lookups up to the bound over colliding GUIDs and locators differing in a single attribute",
  "Neither the stateful nor the stateless writer has any test.",
  ["src/behavior/stateful_writer.rs", "src/behavior/stateless_writer.rs", "src/behavior/reader_locator.rs", "src/structure/guid.rs"],
  [("filter by GUID", "src/behavior/stateful_writer.rs"), ("retain of unequal locators", "src/behavior/stateless_writer.rs")],
  [("matched_readers", "readers matched with the writer", "src/behavior/stateful_writer.rs"), ("reader_locators", "destinations of the writer", "src/behavior/stateless_writer.rs")],
  ["lookup results", "remaining locators"], "construction of the writers and locators")

p("C23", "Sequence and fragment number arithmetic is exact or reports overflow",
  "Checked addition, subtraction, multiplication and division of sequence and fragment numbers give the exact mathematical result when it is representable and report failure otherwise; the plain operators give the same result wherever it is representable. Their order, equality and conversions agree with the 64-bit signed and 32-bit unsigned integers they stand for.",
  ["inputs"],
  "all pairs over a boundary alphabet (powers of two and neighbours, extremes) and all pairs of small numbers, for both number types",
  "No test performs arithmetic or comparison on either number type.",
  ["src/structure/sequence_number.rs", "src/messages/fragment_number.rs", "src/checked_impl.rs"],
  [("delegation to checked integer operations", "src/checked_impl.rs")], (), ["operation results"])

p("C24", "GUIDs identify entities: equal iff all 16 bytes are, ordered bytewise",
  "Two GUIDs (and GUID prefixes, entity ids, instance handles) are equal exactly when their wire encodings are, and they are ordered like their encodings. The unknown GUID is the one with all bytes zero and is what a default GUID is.",
  ["inputs"],
  "all pairs differing in one or two bytes, at every position and with every byte value, over several base patterns",
  "Tests compare only equal constants.",
  ["src/structure/guid.rs", "src/structure/guid_prefix.rs", "src/structure/entity_id.rs", "src/structure/instance_handle.rs"],
  [("structural equality and order", "src/structure/guid.rs")], (), ["comparison results"])

p("C25", "What a writer publishes reaches every reader once, in order, unaltered",
  "Changes created by a writer, stored in its history and sent to several readers reach each reader in the order of creation, at most once, and with the contents they were created with. A reader misses a change only if the change was removed from the history before being sent to it.",
  ["histories"],
  "every interleaving of creating, removing and sending for a writer, its history cache and two readers, up to the bound",
  "No test combines writer, history and readers.",
  ["src/behavior/stateless_writer.rs", "src/structure/history_cache.rs", "src/behavior/reader_proxy.rs"],
  [("numbering, storage and high-water mark together", "src/behavior, src/structure")], (), ["changes received by each reader"], "access to the crate-private writer and cache")

p("C26", "What the library encodes, its own receiver decodes to the same values",
  "A message assembled from the library's own values (message header, submessage headers, entity and interpreter submessages, locators and timestamps) and written by the library in either byte order is decoded by the library's message receiver into submessages that are equal to the originals, in the same order, each delivered with the interpretation context that the preceding originals describe, and nothing is left over. This holds for every number that the types can hold and every number set that can be built.",
  ["inputs", "histories"],
  "every message and conversation, up to the bound, of values of all 11 supported submessage kinds in both byte orders, with boundary values in every field",
  "Tests encode single values, or feed the receiver eight fixed messages; combinations of encoder and receiver over value ranges and byte orders per submessage are not tried.",
  [R, "src/messages", "src/structure", "src/common/bit_set.rs", "src/common/ranged_bit_set.rs"],
  [("Writable implementations against the receiver's Readable ones", "src/messages, src/structure"), ("submessage header's own byte order", "src/messages/submessage_header.rs")],
  [], ["decoded submessages", "receiver context"], "re-export of the private modules")

p("C27", "Receivers, caches, writers and sets never influence each other",
  "What a message receiver, history cache, reader proxy, stateless or stateful writer, or number set answers depends only on the operations done on that instance: any interleaving with operations on other instances, including creating and dropping them, yields for each instance the answers it gives when used alone.",
  ["histories", "schedules"],
  "every interleaving, up to the bound, of operations on two instances of every pair of kinds and on three of one kind, and every merge of selected receiver conversations",
  "Each test uses a single instance; state shared between instances cannot show.",
  [R, "src/structure/history_cache.rs", "src/behavior", "src/common/ranged_bit_set.rs"],
  [("all state is owned by the instance", "src/messages/receiver.rs, src/structure, src/behavior")],
  [("instance state", "receiver context and framing state, stored changes, high-water marks, last number", "src/messages/receiver.rs, src/structure, src/behavior")],
  ["answers of every instance after each operation"], "access to the crate-private writer and cache")

p("C28", "Protocol values compare by what they denote",
  "Two values of a wire type, two changes, or two delivered submessages are equal exactly if all their parts are (number sets: if base and members are). Counts, fragment and sequence numbers, times and durations are ordered as the numbers they stand for (seconds before fraction), protocol versions by major then minor, flags as bytes, and GUIDs, prefixes, entity ids and handles bytewise; all comparison operators, min and max agree with that order, and equal values have equal hashes.",
  ["inputs"],
  "every pair of a value and a change of it in one byte (all values) or two bytes, for every wire type; all pairs of boundary numbers for ordered types",
  "Tests compare values only for equality with themselves after a round trip; an order or an inequality is never asserted for most types.",
  ["src/structure", "src/messages", "src/common"],
  [("equality and order of the protocol types", "src/structure, src/messages")], (), ["results of the comparison operators"], "re-export of the private modules")

p("C29", "Writers keep the attributes they were configured with",
  "A stateless or stateful writer reports exactly the GUID, endpoint attributes (topic kind, reliability, unicast and multicast locator) and writer attributes (push mode, heartbeat period, nack response delay, nack suppression duration) it was created with, whatever values these are and whatever changes are created and readers or locators are added, removed or looked up afterwards. Only the last change sequence number of a stateless writer moves: by one with each change it creates.",
  ["inputs", "histories"],
  "every single attribute value and pair of values of the boundary alphabet, every byte value of GUIDs, locators and durations, and every history of operations of one or two writers up to the bound",
  "No writer is constructed in any test.",
  ["src/behavior/stateless_writer.rs", "src/behavior/stateful_writer.rs", "src/behavior/writer.rs", "src/structure/entity.rs", "src/structure/endpoint.rs"],
  [("attributes are stored on creation and handed out by reference", "src/behavior/stateless_writer.rs, src/behavior/stateful_writer.rs")],
  [("entity, endpoint and writer attributes", "configuration of a writer", "src/behavior")], ["reported attributes after each operation"], "access to the crate-private writer")

p("C30", "Values are written and read completely, or an error is reported",
  "A value of any wire type announces the exact size of its encoding, and writes the same bytes to a new vector, to a buffer of any sufficient size (of which it touches nothing else), to a stream however little that takes at a time, and between other values. A buffer that is too small, or a stream that fails or ends after any number of bytes, gives an error and no panic, when writing as well as when reading, and never a silently incomplete value.",
  ["inputs", "fault_sequences"],
  "every wire type with boundary values, every size of buffer, every position of every kind of stream fault and several transfer sizes",
  "Tests write to vectors that cannot fail and read from complete buffers.",
  ["src/structure", "src/messages", "src/common/bit_set.rs", "src/common/ranged_bit_set.rs", "src/messages/submessage_elements/parameter.rs"],
  [("hand-written Readable and Writable implementations pass every error on", "src/common/bit_set.rs, src/structure, src/messages")], (), ["bytes accepted by the destination", "result of writing or reading"], "re-export of the private modules")

p("C31", "The receiver works behind a framed reader under every behaviour of the transport",
  "Driven by tokio's FramedRead over any transport, whatever its reads do (any number of bytes, nothing yet, an I/O error, the end, more bytes after that), the receiver makes the stream yield every entity submessage once, in order and as soon as it is complete, and one error per rejected header or submessage. An I/O error or a read that would block loses nothing and leaves the interpretation context alone, the stream never ends before the input does, and after the end of input the next bytes open a new message.",
  ["inputs", "schedules", "fault_sequences"],
  "every order of reads of selected sizes, blocked reads, I/O errors and ends of input up to the bound, for messages of every kind of submessage",
  "Tests call the decoder directly on complete buffers; no test drives it through a framed reader, and none lets a read fail or block.",
  ["src/messages/receiver.rs"],
  [("the decoder keeps its own framing state and consumes only complete submessages", "src/messages/receiver.rs")],
  [("framing state and interpretation context", "where in a message the receiver is, and what applies there", "src/messages/receiver.rs")], ["items, errors and pauses of the stream; interpretation context after each poll"], "access to the receiver's context")

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
