#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run from /verif: python3 tools/gen_manifest.py)."""
import json, os
HIST = "explicit-state exploration of all operation histories (real code, reference model at every step)"
VAL = "bounded-exhaustive enumeration of values against a reference codec (real code)"
INP = "bounded-exhaustive enumeration of inputs against a reference decoder (real code)"
T = {
 "C01": (HIST, "All histories of parser operations to the stated depth plus breadth-first search over model states, for the three parsers; every step compared with a reference cursor."),
 "C02": (HIST, "As C01, judged on window operations."),
 "C03": (INP, "Three real parsers compared with each other on every explored history and on every explored decoder input."),
 "C04": (VAL, "Every enumerated value of every catalogue type, bare, followed by other bytes, and in records, with the three parsers."),
 "C05": (VAL, "Emitted bytes compared with an independent encoder interpreting the schema."),
 "C06": (INP, "Every explored input and entry point observed for panic, abort, hang and heap growth."),
 "C07": (INP, "Accept/reject, value and consumption compared with an independent decoder interpreting the schema."),
 "C08": (VAL, "All length queries compared with the emitted bytes for every enumerated value, in two build configurations."),
 "C09": (HIST, "All push/hint/mark histories to the stated depth on every output target, and every catalogue value on every target."),
 "C10": (VAL, "All combinations of prefix width, declared length, payload and surrounding window within the bounds, on real encoders and decoders."),
 "C11": (VAL, "All candidate numbers of the 8- and 16-bit types and boundary neighbourhoods of the 32-bit ones, for a family of ranges."),
 "C12": (VAL, "All bound pairs over a set of special floats, each with the neighbourhoods of all special patterns."),
 "C13": (HIST, "All operation histories to the stated depth against a list model, in three storage configurations, and all element counts on decoding."),
 "C14": (VAL, "All small numbers, neighbourhoods of powers of two, and all byte strings over an alphabet up to the stated length, against a reference arithmetic."),
 "C15": (VAL, "All short byte strings and all texts over an alphabet up to the stated length."),
 "C16": (HIST, "All operation histories to the stated depth against a reference list of segments, with every observation made after every step."),
 "C17": (HIST, "All parser histories to the stated depth, each discarded and compared with the model's leftovers, plus every decoder input under complete-parse checking."),
 "C18": (VAL, "All discriminants of 8- and 16-bit enumerations and unions, and boundary ones of the 32-bit ones."),
 "C19": (INP, "The observation stream of every value and input of the catalogue in each feature configuration compared with that of the default build."),
 "C20": (HIST, "As C01, judged on skipping, prefix and lookup operations."),
 "C21": (VAL, "All (length, index, range) triples within the bounds including extreme ones, for every source type."),
 "C22": (HIST, "All histories of the tracing parser to the stated depth; the printed trace compared with the model's reads."),
 "C23": (VAL, "All lengths around each width times content alphabets, every conversion and accessor."),
 "C24": (VAL, "All field-type sequences up to the stated length over a set of codecs, named and positional, generated as real structs."),
 "C26": (VAL, "Every ordered pair of values of every value type, with every comparison operator, hashing, copying and borrowing, against the represented values."),
 "C27": (INP, "The error of every failing parser operation (all histories to the stated depth), validating constructor and decode compared with an independent prediction of kind and contents."),
 "C28": (VAL, "Every enumerated value printed under every combination of format options and into every writer capacity, against the standard type of the value."),
 "C29": (INP, "Hand-written implementors of every extension point: all operation histories against the reference cursor, every catalogued codec through them, and a failure injected at every parser call of every decode."),
 "C30": ("exhaustive enumeration of operation histories, inputs and injected panics on the real code, executed under AddressSanitizer, an ownership-balance monitor and the Miri interpreter", "All operation histories, decoder inputs, values and injected panics to the stated bounds, every execution watched by AddressSanitizer and a balance of live elements and allocations, and the smaller part of the same space also by Miri (aliasing, initialisation, validity)."),
 "C31": ("exhaustive enumeration of nested and growing values on the real code under step, call and memory counters", "Every nesting of recursive values to the stated depth and every value tree to the stated size, every operation executed on the real code with counters of element steps, parser and target calls and memory requests that stop an execution exceeding its bound; growing runs up to a million items under a time limit."),
 "C25": (VAL, "Every wrapper over every inner type of a set, in records and windows of every small size, against the inner codec itself."),
}
built = {b[:3].upper() for b in os.listdir("harness/src/bin")}
titles = {json.loads(l)["id"] for l in open("properties.jsonl")}
assert titles == set(T), titles ^ set(T)
checks, na = [], []
for p, (t, n) in T.items():
    if p in built:
        checks.append({"property": p, "quick_cmd": f"./run.sh {p} quick", "thorough_cmd": f"./run.sh {p} thorough",
                       "technique": t, "level": "model_checking",
                       "level_note": n + " Bounds and counts are in the evidence file; trusts the reference model in /verif/harness/src and says nothing beyond the enumerated bounds."})
    else:
        na.append({"property": p, "reason": "its check is not built yet"})
m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": checks, "not_applicable": na,
     "notes": "The library is sequential, so what is enumerated are operation histories, values and inputs, always on the real code. No guarded hooks were added; C16 reaches SplitVec through the crate's own cargo feature expose_internal (repaired to compile by a fix: commit)."}
json.dump(m, open("MANIFEST.json", "w"), indent=1); open("MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(na), "not built")
