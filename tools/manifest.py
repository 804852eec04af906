#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "L01": ("hostile-input stress of every decoder entry point with a panic/hang/allocation monitor", "exploration",
         "Shows that none of the inputs tried (see evidence) panics, hangs (CPU-time watchdog, re-run alone) or allocates more than 2 MB + 4000 B per input byte. Trusts the Go runtime's bounds checks and allocation counter."),
 "L02": ("oracle monitor over corrupted packets: independent CRC/header classification against the decoder's verdict and code", "fault_enumeration",
         "Every header bit, byte and all checksum values are enumerated on sample packets, body damage is sampled. Trusts the reference CRC implementations, which are checked against published check values."),
 "L03": ("round-trip monitor (structure->bytes->structure, bytes->structure->bytes) over generated and recorded packets", "exploration",
         "Field-by-field comparison on every generated packet; all presence-flag bytes enumerated. Trusts the generator to stay within representable values."),
 "L04": ("differential monitor against an independent implementation of the standard's layout tables", "exploration",
         "Encoder and decoder are judged separately, byte by byte and field by field, against package ref, which shares no code with the repository. Trusts ref's reading of the standards; recorded packets of real devices support it."),
 "L05": ("truncation monitor: all prefixes of packets, bodies, records and contents with consistent outer lengths must be refused", "fault_enumeration",
         "Cut points of each generated packet are enumerated (sampled beyond 60 bytes for large ones)."),
 "L06": ("strict independent parse-back of encoder output, Length() consistency monitor, limit probes", "exploration",
         "Limits of every range-limited field and 16-bit length are enumerated around their edges."),
 "L07": ("Go race detector plus differential monitor of concurrent against solo results; aliasing canaries", "exploration",
         "Race-instrumented build; verdict covers the interleavings that happened."),
 "L08": ("differential monitor of the JSON form of decoded packets against the reference implementation, key by key", "exploration",
         "Every key of every section is compared, doubled and additional keys are reported. Trusts the reference's reading of the standard and the published EGTS+ schema."),
 "S01": ("hostile-peer stress of the real race-built receiver program with a process-exit monitor, witness peers that must keep being served, descriptor and goroutine leak monitors", "exploration",
         "Held on the hostile streams tried (kinds and counts in the evidence). A stall is 30 s without a reply on loopback while the machine is not starved."),
 "S02": ("online monitor of the reply stream against the packets sent (exactly-once, order, record confirmations), independent decoder", "exploration",
         "Real server on loopback, race-built. Trusts the independent decoder and traffic generator."),
 "S03": ("fault injection into packet streams with a monitor of replies, exported records and stream synchronisation", "fault_enumeration",
         "Twelve classes of damage mixed with valid packets at random positions; unframeable input must end the connection."),
 "S04": ("exactly-once and ordering checker over the records reaching a recording storage, positions tagged with unique times", "exploration",
         "Real server on loopback with one and several connections; waits for a sentinel position, not for replies."),
 "S05": ("differential monitor of exported JSON records against an independent mapping of the packets sent", "exploration",
         "Runs with a non-UTC local time zone. Flag and sensor combinations are enumerated, values sampled around their limits."),
 "S06": ("monitor relating storage return events to acknowledgement bytes under scripted storage failures, delays and gates", "fault_enumeration",
         "One to four storages; failures of every single storage and random subsets. Early acknowledgements are looked for while a Save is held at a gate."),
 "S07": ("differential monitor: replies and exports of the same byte stream under different TCP segmentations", "exploration",
         "Compared with the run that sends one packet at a time. Whether the kernel delivers the pieces separately is forced with pauses, not proved."),
 "S08": ("Go race detector plus per-connection reply and export checkers under many simultaneous and misbehaving connections; gated storage calls", "exploration",
         "Verdict covers the interleavings that happened; distinct save orders are counted."),
 "S09": ("timing monitor of connection ends over scripted silences and drip-fed sessions", "exploration",
         "Lower bounds are exact; upper bounds have 1 s slack and count only if missed three times without starvation."),
 "S10": ("lifecycle stress of Run and Stop under the Go race detector with monitors for return, refusal, rebind and CPU use", "exploration",
         "Seven ways of stopping, with and without traffic, and restarts on the same address."),
 "S11": ("online monitor of result code packets against the identifications sent, independent decoder", "exploration",
         "Real server on loopback, race-built; half of the sessions play a terminal that confirms."),
 "S12": ("resource monitor: live heap, goroutines and descriptors of the server at equal distances of traffic", "exploration",
         "Six kinds of packets on long sessions, five ways of ending short ones. A growth counts if it exceeds 4 bytes per packet or 64 per connection in three series in a row; slower growth is not seen."),
 "T01": ("monitor of instrumented storages under all small failure patterns, random larger ones and concurrent saves; race detector", "fault_enumeration",
         "All failure patterns of up to 7 storages are enumerated. LoadStorages runs against protocol-level fake brokers and closed ports."),
 "T02": ("fault injection with scripted protocol-level fake brokers; monitor relating what the broker did to the result of Save and Init; panic and hang monitor", "fault_enumeration",
         "Every stage of each broker conversation is failed in several ways. Trusts the fake brokers' reading of the six protocols; the real client libraries talk to them."),
 "T03": ("exactly-once monitor over messages received by protocol-level fake brokers, with concurrent savers under the race detector", "exploration",
         "Compares the destination and body of every message with the record saved. Trusts the fake brokers; the real client libraries talk to them."),
 "T04": ("fault injection of broker outages with a recovery monitor over the messages received by protocol-level fake brokers", "fault_enumeration",
         "Six kinds of outage for each of six connectors, lengths up to 1.5 s; recovery is given 30 s."),
 "T05": ("leak monitor over goroutine stacks, the heap and what protocol-level fake brokers keep open, through thousands of saves, failures and outages", "exploration",
         "Growth beyond 24 of a kind per some thousand records, some hundred failures or a few outages counts; slower growth is not seen (the AMQP library itself loses a goroutine now and then when a connection breaks). Trusts the fake brokers; the real client libraries talk to them."),
 "C01": ("differential monitor: generated configuration files against accessors, and against the observable behaviour of the receiver program", "exploration",
         "Every key is varied, alone and together. Trusts the generator's idea of YAML scalars."),
 "G01": ("monitor of the bytes packet-gen sends and of its exit status under scripted server behaviours, and against the real server", "fault_enumeration",
         "Real program; the packet is decoded by the independent codec. Every kind of reply (right, wrong, garbage, late, segmented, none) is scripted."),
 "G02": ("monitor of the program's output against the acknowledgements its peers received, with kills at random and critical moments and a full output device", "exploration",
         "Real receiver program, partly race-built; eleven storage sections without a usable storage, six log levels."),
 "G04": ("conservation checker over the log of resending terminals, the receiver program and the storages, under SIGKILL, storage outages and errors", "exploration",
         "Real program and protocol-level storages of the six kinds; up to 8 terminals, 3 storages, 6 kills and 4 outages per scenario; race detector on a quarter of the programs."),
 "G03": ("monitor of the bytes a scripted server and the real receiver get from the replay script, before and after each answer", "exploration",
         "Real script under the installed python3; files with all kinds of line ends, answers delayed up to 1.5 s."),
}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in T:
        t, lev, note = T[p]
        checks.append({"property": p, "quick_cmd": "./check.py " + p, "thorough_cmd": "./check.py %s --thorough" % p, "technique": t, "level": lev, "level_note": note})
    else:
        na.append({"property": p, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
