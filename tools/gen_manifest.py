#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
T = "property-based testing (proptest generators, shrinking): "
how = {
 "C01": ("differential against the sha2 crate and RFC 2104 over it", "messages up to about 300 kB; trusts the sha2 crate, itself checked on NIST vectors"),
 "C02": ("differential against a one-shot P_SHA256, any sequence of draws", "streams up to tens of kilobytes, rarely past 65536 blocks"),
 "C03": ("differential against an RFC 8439 reference, operation sequences on one instance", "block counters reached by drawing and skipping; more than 2^32 blocks under one nonce are outside RFC 8439"),
 "C04": ("differential against the polynomial on big integers, with solved corner accumulators", "messages up to tens of kilobytes, rarely 400 kB"),
 "C05": ("differential, round-trip and metamorphic mutation against an RFC 8439 AEAD", "a forged tag is taken to be refused when any bit differs from the reference tag"),
 "C06": ("differential against big integers, structured limbs, operation chains", "operands reduced below p, as the callers guarantee"),
 "C07": ("differential against an affine group law on big integers, plus algebraic relations", "points are multiples of G by generated scalars"),
 "C08": ("differential against the curve equation on big integers, mutated encodings", "encodings up to about 200 bytes"),
 "C09": ("differential ECDH from the server's side, mutated server key exchanges, entropy metamorphosis", "the random source is replaced by a recorded one (getrandom shim)"),
 "C10": ("differential against an independent encoder, round-trip", "values are built through husk's public constructors"),
 "C11": ("differential against an independent strict parser, structured mutation", "raw inputs up to some kilobytes, structured ones up to 100 kB"),
 "C12": ("model-based, any split or merge of message sequences", "messages up to 100 kB, sequences up to 8"),
 "C13": ("model-based operation sequences against an independent record parser and AEAD", "writes up to 100 kB"),
 "C14": ("stateful record streams with disturbances against the reference AEAD and record rules", "sequence numbers near powers of two reached through a hook"),
 "C15": ("stateful histories with injected transport faults, all sealed bytes attributed to nonces", "partial records are attributed from 6 bytes on"),
 "C16": ("generated conforming servers (reference TLS 1.2 server)", "no client authentication, no renegotiation"),
 "C17": ("generated deviations of server and network, judged from the bytes exchanged", "up to 3 deviations in one handshake; the certificate is not validated by husk and not asserted"),
 "C18": ("stateful interleavings of writes, records and reads against byte streams", "one thread, as TlsClient requires"),
 "C19": ("generated attack scripts on the sealed record stream", "the attacker cannot forge tags"),
 "C20": ("structure-aware fuzzing of every phase with panic, step and memory oracles", "overflow checks on; memory bound 256 kB + 64 times received bytes"),
 "C21": ("generated failing handshakes against a cause, kind and alert table", "where RFC 5246 leaves the choice open, several kinds are accepted"),
 "C22": ("stateful closure histories against a stream model", "HelloRequest after the handshake is left open"),
 "C23": ("fault injection and transport schedules, differential against a perfect transport", "transport faults at any byte"),
 "C24": ("generated entropy, independent strict parser, entropy metamorphosis", "the random source is replaced by a recorded one"),
 "C25": ("differential against arithmetic definitions, transport schedules", "none"),
 "C26": ("metamorphic: equal execution traces for generated pairs of secrets (LLVM trace instrumentation, and per-instruction counts of the uninstrumented machine code under callgrind)", "branches, addresses, indices and instructions are observed, not cycles; x86-64, opt-level 3 and 2"),
 "C28": ("generated long histories and sequences of connections under a counting allocator, bounds and growth of what is held", "memory is what goes through the global allocator; leaks below one byte per operation or eight per connection may stay unseen"),
 "C29": ("generated sessions with deviations and faults, everything they emit searched for values that an independent derivation knows", "plain, reversed, hexadecimal, decimal, word-wise and escaped renderings; freed memory is not looked at"),
 "C30": ("generated shapes of sessions, each run at one and at eight times the size: metamorphic relation between their costs", "growth is asserted, not absolute cost; what is less than three times more than proportional at eight times the size stays unseen"),
 "C27": ("generated schedules over several connections (nested in one thread, switched at transport calls, in parallel), differential against each by itself", "up to seven connections at a time; inside a computation the interleaving is the machine's"),
}
na = {}
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "hooks": {
  "guard": "husk_verif",
  "enable": "RUSTFLAGS='--cfg husk_verif' (set by check.sh; the checks fall back to a build without it)",
  "source_commits": [h for h in subprocess.run(["git","-C","/repo","log","--format=%H","--grep=^verif hook"],capture_output=True,text=True).stdout.split()],
 },
 "checks": [],
 "not_applicable": [{"property": k, "reason": v} for k, v in na.items()],
 "notes": "Exit codes: 0 held, 1 violated, 2 harness error, 3 no answer in time. Replay: ./check.sh ID --replay FILE.",
}
for p in props:
    i = p["id"]
    if i in na: continue
    t, n = how[i]
    m["checks"].append({
     "property": i,
     "quick_cmd": f"./check.sh {i}",
     "thorough_cmd": f"./check.sh {i} --tier thorough",
     "evidence_file": f"evidence/{i}.json",
     "technique": T + t,
     "level": "exploration",
     "level_note": "Generated-input search with an explicit oracle; holds for the cases generated, counted in the evidence. " + n[0].upper() + n[1:] + ".",
    })
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
