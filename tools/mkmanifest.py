#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "N01": "liveness (eventual progress of blocked goroutines under fair scheduling); the contracts here state safety per call, and no obligation over one call can express it",
 "N03": "a whole-history property over reconnects and restarts that the code does not attempt to provide (no record of received QoS 2 identifiers is consulted before delivery)",
}
TODO = "not claimed yet: its contracts are not finished"
PROOF = "contracts on the real functions, verification conditions generated from go/ssa of the current source and discharged deductively (structural prover, z3, cvc5); refutations replayed on the real code"
LEVELS = {}
def claim(p, level, note, tech=PROOF): LEVELS[p] = (level, note, tech)
claim("C01", "proof", "Every obligation of the write and length contracts of the primitives is discharged for all values and all writers that accept or fail at any call. Trusted: io.Writer, encoding/binary, bytes.Buffer models; lengths below 2^48.")
claim("C02", "proof", "Every obligation of the read contracts is discharged for all streams, all fragmentations (io.ReadFull model) and both outcomes. Trusted: io.Reader/io.ReadFull model (fixed stream, permanent final error).")
claim("C03", "proof", "Every obligation of the fixed header contracts is discharged for all values. Trusted: io models as C01/C02.")
for p, what in (("C04", "CONNECT"), ("C05", "PUBLISH"), ("C06", "SUBSCRIBE and UNSUBSCRIBE"), ("C07", "publish acknowledgements"), ("C08", "DISCONNECT and AUTH")):
    claim(p, "proof", "Every obligation of the " + what + " encoder contract and of the contracts it calls is discharged for all packets and all writers that accept or fail at any call. Trusted: io.Writer, bytes.Buffer, encoding/binary models; map iteration order fixed per call; lengths below 2^48.")
for p, what in (("C09", "CONNACK"), ("C10", "PUBLISH"), ("C11", "PUBACK, PUBREC, PUBREL and PUBCOMP"), ("C12", "SUBACK and UNSUBACK"), ("C13", "DISCONNECT and AUTH")):
    claim(p, "proof", "Every obligation of the " + what + " decoder contract and of the contracts it calls is discharged for all streams, all fragmentations and all packet sizes; loop invariants are inferred and proved inductive. Trusted: io.Reader/io.ReadFull model (fixed stream, permanent final error); lengths below 2^48.")
claim("C14", "proof", "Every obligation of the subscription-option contracts is discharged for every topic filter and option value.")
claim("C15", "proof", "Every obligation of the payload-cursor contracts (Read, Write, Reset, fresh packet) is discharged for all payloads, cursor positions and buffers.")
claim("C16", "proof", "Every obligation of the contract of matchTopic against a recursive definition of topic matching is discharged for all topics and filters; loop invariants are inferred and proved inductive. Assumed: a loop runs fewer than 2^63 times.")
claim("C17", "proof", "Every obligation of the storage contracts is discharged for all stores, identifiers and packets.")
CLIENT = "Trusted: models of net.Conn, sync locks, channels, contexts, time and Storage; operations are verified one at a time, other operations may act only where one waits (rely-guarantee on the client invariant); lengths below 2^48."
for p, what in (("C18", "Connect, Disconnect and Poll"), ("C19", "Connect"), ("C20", "Poll"), ("C21", "Publish, Connect and Poll"), ("C22", "Poll and matchTopic"),
                ("C24", "Disconnect, DisconnectWithSessionExpiry and Poll"), ("C25", "KeepAlive, Connect and Poll"), ("C27", "Poll and the decoders it calls"),
                ("C28", "the event channel operations, Connect, Disconnect and Poll"), ("C30", "Publish"), ("C31", "Publish, SetStorage and Poll"), ("C23", "Subscribe, Unsubscribe, Connect and Poll"),
                ("C26", "every operation of the client"), ("C29", "every operation of the client and every decoder it calls"),
                ("C32", "every operation of the client")):
    claim(p, "proof", "Every obligation of this property in the contracts of " + what + " and of the contracts they call is discharged for all client states, packets and failures of the connection and the storage. " + CLIENT)

props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p in LEVELS:
        lv, note, tech = LEVELS[p]
        c = {"property": p, "quick_cmd": "python3 tools/check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p + " --thorough",
             "technique": tech, "level": lv, "level_note": note}
        checks.append(c)
na = [{"property": p, "reason": NA.get(p, TODO)} for p in props if p not in LEVELS]
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
