#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property of properties.jsonl."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "P01": ("panic/abort monitor over hostile inputs and random call sequences (debug assertions, overflow checks; second build under AddressSanitizer)",
   "No panic, abort or sanitizer report on the call sequences run. Trusts catch_unwind and ASan; std is not instrumented."),
 "P02": ("online progress monitor on StreamingDecoder::update and logical work/CPU-time bounds on high-level calls",
   "Progress held at every update observed. The CPU-time bound per call is far above what the work needs and is a watchdog for hangs."),
 "P03": ("counting global allocator as monitor, exact accept/refuse oracle around the limit",
   "Peak heap per thread measured on every decode; multiple 6 and 1 MiB constant are the monitor's reading of 'small'."),
 "P04": ("differential trace monitor: same bytes under many read/update schedules and interruptions",
   "Outcomes equal on all schedules run; the one-read run is the reference, itself judged by P05."),
 "P05": ("reference-model monitor: generated GIFs with known truth and independent decoder",
   "Decoded result equals the generator's truth; an independent decoder confirms the generated bytes and judges the repository's samples."),
 "P06": ("reference-model monitor: palette lookup computed from indexed output",
   "Exact comparison of every pixel on every path run."),
 "P07": ("differential monitor across all decoding APIs",
   "All paths compared with each other and with the generator's truth."),
 "P08": ("history monitor: random per-frame histories compared with a straight decode",
   "Held on the histories run."),
 "P09": ("fault enumeration: every prefix and an error at every read, oracle from an independent decoder",
   "All cut and fault points of small files, sampled ones of larger files."),
 "P10": ("history + reference model: decoded files compared with the call log",
   "Uses this crate's decoder, which P05 judges separately, plus the strict parser of P11."),
 "P11": ("independent strict GIF/LZW parser as oracle over encoder output",
   "Every output byte is accounted for by the independent parser."),
 "P12": ("differential monitor: pre-encoded vs direct bytes, shuffled and threaded compression, transcode",
   "Byte equality of files; thread interleavings are those the scheduler gave."),
 "P13": ("fault enumeration over writer bytes and calls with a writer-side event log; both raii_no_panic settings",
   "All fault offsets of small files, sampled ones of larger files."),
 "P14": ("history monitor: accepted-only twin encoder, error kinds and decoded file",
   "Byte equality with the twin at each call, exact error kinds."),
 "P15": ("reference-model monitor of palette, indices and alpha of true-colour frames",
   "Exactness oracle up to 256 entries; above, only the alpha mask, bounds and determinism are required."),
 "P16": ("boundary-heavy workload against the arithmetic predicate",
   "Exact predicate in 32-bit arithmetic; geometry sampled around its boundaries."),
 "P17": ("reference-model monitor: presence of the end code known from an independent coder",
   "Exact predicate on all histories run."),
 "P18": ("metamorphic monitor: stream with unknown blocks vs the same stream without them",
   "All introducers and labels covered over the run."),
 "P19": ("online trace monitor of extension events against known payloads and divisions",
   "All labels; repeat counts all in thorough, strided in quick."),
 "P20": ("byte-conservation monitor on the reader: handed out, consumed, left",
   "Exact position after the end; interval bounds before it."),
 "P21": ("online trace checker of the event grammar with expected events from the truth",
   "Every event of every run judged."),
 "P22": ("history monitor: further calls after end or error",
   "Held on the histories run."),
 "P23": ("differential monitor: reused, interleaved and threaded instances vs fresh sequential ones",
   "Thread interleavings are those the scheduler gave; the crate has no shared state to order."),
 "P24": ("row-identity monitor over frame heights on all deinterlacing paths",
   "All heights in a range and boundaries to 65535."),
 "P25": ("argument-sweep monitor: constructor results and panics compared with the documented contract, plus encode/decode round trip",
   "Exact comparison of all fields; panics observed with catch_unwind."),
 "P26": ("fault enumeration: reader or writer failing at a byte with a unique error payload, identity of the reported cause checked",
   "Offsets sampled; twelve error kinds."),
 "P27": ("history monitor: writer-side snapshot after each call judged by strict parser and decoder",
   "Every cut point of the histories run."),
 "P28": ("history monitor: all getters recorded after every call and compared with the opening values and the current frame",
   "Held at every observation; valid streams are also compared with the generator's truth."),
 "P29": ("differential monitor: permissive vs stricter option set on the same stream",
   "The permissive run is the reference, itself judged by P05."),
 "P30": ("fault injection behind a frame, delivered frames compared with the generator's truth",
   "Positions and damages sampled."),
 "P31": ("fault injection: transient reader errors with retry, delivered frames compared with the generator's truth",
   "Offsets sampled; up to four errors per run."),
 "P32": ("fault injection into otherwise well-formed streams, outcome compared with the generator's truth up to the defect",
   "Five kinds of defect, positions sampled."),
 "P33": ("metamorphic monitor: decode, encode, decode again, compare generations",
   "Encoder and decoder of this crate on both sides; each is judged on its own by P05, P10 and P11."),
 "P34": ("counting global allocator and CPU clock over long animations, bounds from the largest item and the amount of data",
   "Constant factors (6 to 8 times the largest item) are the monitor's reading of 'bounded'."),
 "P35": ("online trace monitor of StreamingDecoder events under mixed destinations, discarding and tampering with the current frame",
   "Expected events from the generator's truth; discarding and tampering points sampled."),
 "P36": ("reader-side demand monitor: position at each read compared with what the call needs",
   "Pieces ending exactly at the offsets that matter, and sampled ones."),
 "P37": ("shadow copies of noise-filled destination buffers compared after every call with the generator's truth",
   "Buffer sizes and damage sampled; a byte equal by chance to the noise cannot be told from an untouched one."),
 "P38": ("raw frame data compared with the bytes of the generated file, before and after re-muxing",
   "Arbitrary, damaged and valid image data; partitions sampled."),
 "P39": ("writer-side byte and call counts per encoder call compared with an independent greedy LZW coder",
   "Slack of 16 bytes and 2.5 % over the reference, because weezl drops a phrase now and then (0.8 % at most observed)."),
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
assert [p["id"] for p in props] == sorted(T)
checks = []
for p in props:
    i = p["id"]
    t, n = T[i]
    checks.append(dict(property=i, quick_cmd=f"bash run.sh {i} quick", thorough_cmd=f"bash run.sh {i} thorough",
        evidence_file=f"evidence/{i}.json", technique="runtime monitoring: " + t,
        level="fault_enumeration" if i in ("P09", "P13") else "exploration",
        level_note=n + " Held on the executions counted in the evidence, not proved."))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[],
    notes="No hooks in /repo: every monitor observes the public API. All checks are one program (harness/, crate gifmon) built by run.sh against /repo's working tree. Repairs of genuine defects are listed in known-findings.txt.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError: pass
