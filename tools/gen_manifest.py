#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HOOKS = ["34a4cf61053f58206a2402a27504849b83d6c45e", "238e04e22864edc6d137a489c69eb7137a96c177"]
TREE = "explicit-state model checking of the real code: exhaustive choice-tree exploration (stateless) against a reference model"
GRAPH = "explicit-state model checking of the real code: breadth-first state graph and exhaustive operation sequences against a reference model"
RANGE = "explicit-state model checking of the real code: exhaustive enumeration of bounded input spaces against an exact reference"
NOTE = {
 "C01": (TREE, "Every bounded input and split listed in the evidence is executed on the real decoder; a panic, abort, runaway allocation, hang or lack of progress on any of them is found. Inputs beyond the bounds (several simultaneously hostile fields, longer messages) are not covered."),
 "C02": (GRAPH, "State graphs over deliveries close, so for the alphabet messages every way of splitting them is covered; longer messages by all 3- and 4-piece splits. Trusts the comparison with whole delivery and the reference framing."),
 "C03": (GRAPH, "The graph of contexts closes for the alphabet, so sequences of any length over it are covered; field values byte by byte. Trusts the independent reference receiver in harness/src/model.rs. One known finding (INFO_SRC layout)."),
 "C04": (TREE, "All sequences up to the bound and all single-byte and boundary values of fields are compared with an independent layout decoder. One known finding (bitmap bit order)."),
 "C05": (TREE, "All kinds, lengths of the list, flags and positions up to the bound, compared with the reference framing."),
 "C06": (TREE, "Every rejected submessage of the bounded space on several contexts: context before and after compared exactly."),
 "C07": (TREE, "All pairs and triples of datagrams of the alphabet through one receiver, compared with fresh receivers."),
 "C08": (TREE, "All versions, all single bytes and pairs of bytes of the magic (thorough: all 2^32 magics), histories of headers."),
 "C09": (RANGE, "All values of each byte and selected pairs of bytes of 33 types; layouts are stated independently as byte positions."),
 "C10": (RANGE, "Every prefix and many extensions of each type's encodings, through seven ways of reading."),
 "C11": (RANGE, "All headers for the listed kinds (thorough: all 2^32)."),
 "C12": (GRAPH, "All ordered pairs of offsets and all insertion sequences up to the bound for both set types and all listed bases, compared with a mathematical set."),
 "C13": (RANGE, "All bit counts up to the bound with every single bit, all small bitmaps, all listed bases. One known finding (bitmap bit order)."),
 "C14": (RANGE, "A counting allocator measures every call for all listed counts (thorough: all counts below 2^27, all multiples of 32, all above 2^32 - 2^27); bound 160 bytes per received byte plus 8192."),
 "C15": (GRAPH, "The graph of cache contents closes over the alphabet: histories of any length over it; plus unmerged histories and long ones."),
 "C16": (GRAPH, "The graph of readers and changes closes over the alphabet; plus unmerged histories and long ones."),
 "C17": (GRAPH, "All histories up to the bound from all listed starting numbers, long runs over word boundaries."),
 "C18": (TREE, "All value lengths up to the bound and around the limit, all runs of parameters up to the bound, both byte orders."),
 "C19": (RANGE, "All 10^9 nanoseconds and all 2^32 fractions of several seconds and all 2^32 seconds with several fractions, against exact integer arithmetic."),
 "C20": (RANGE, "All 10^9 nanoseconds and all 2^32 fractions of several seconds and all 2^32 seconds with several fractions, against exact integer arithmetic. One known finding (fraction taken as nanoseconds)."),
 "C21": (RANGE, "All IPv4 addresses, all ports, all locator ports, all pairs of bytes of IPv6 addresses."),
 "C22": (GRAPH, "All histories up to the bound and closed state graphs over near-identical GUIDs and locators."),
 "C23": (RANGE, "All pairs over boundary and dense grids against 128-bit arithmetic; all 2^32 fragment numbers and words of sequence numbers."),
 "C24": (RANGE, "All pairs of values of each byte, contrary pairs and triples of bytes, permutations, all 2^32 entity ids, against comparison of the encodings."),
 "C25": (GRAPH, "All states of writer, history and readers up to the depth, all unmerged histories up to the bound, long histories that keep the last changes."),
 "C26": (TREE, "All messages of up to four submessages (thorough: five) over 48 alternatives, boundary numbers in pairs, number sets of every pair and range of offsets; the oracle is the original values, no layout is assumed."),
 "C27": (TREE, "All interleavings of operations on two or three instances up to a depth; each instance compared with a lone one. Instances are used from one thread."),
 "C28": (RANGE, "Every single-byte and many two-byte differences per wire type, all pairs of boundary words for ordered types; the oracle is the encoding (or the numbers in it)."),
 "C29": (GRAPH, "Every boundary value of each attribute, all pairs of them, the product of the small attributes, all byte values; all histories up to the bound. The period of repeated sending is stored but reported nowhere."),
 "C31": (TREE, "All orders of reads, failing reads, ends of input and would-block results up to the bound, behind the real tokio FramedRead, compared poll by poll with the reference decoder behind the same. UdpFramed is represented by its way of calling the decoder (see C07)."),
 "C30": (TREE, "All sizes of buffers and all positions of all kinds of stream faults (fault injection), for sample and boundary values of 33 types and sets of all sizes."),
}
checks = [dict(property=k, quick_cmd=f"./check.sh {k} --tier quick", thorough_cmd=f"./check.sh {k} --tier thorough",
               technique=t, level="model_checking", level_note=n) for k, (t, n) in sorted(NOTE.items())]
m = dict(version=1, setup_cmd="./setup.sh",
  hooks=dict(guard="cfg(rtps_verif)", enable="RUSTFLAGS='--cfg rtps_verif' (set by env.sh)", source_commits=HOOKS),
  checks=checks, not_applicable=[],
  notes="All checks are binaries of the crate harness/, which depends on /repo by path. Bounds and covered states are written to evidence/<id>.json by every run; listed findings are in known_findings.txt.")
with open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
ids = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
assert ids == [c["property"] for c in checks], "properties.jsonl and MANIFEST.json differ"
