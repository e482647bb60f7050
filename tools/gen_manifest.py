#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MON = "runtime monitoring: event log of the sanitized real code judged by an independent executable model"
NAT = "runtime monitoring: in-process monitors with an independent model, under ASan+UBSan"
T = {
 "C01": ("runtime monitoring: ASan+UBSan+LSan under hostile call histories and coverage-guided fuzzing", "No memory error, undefined behaviour, leak, escape of an exception or message-less failure in the call histories and fuzz inputs run; inputs not run are not covered. Frames inside rapidjson and libstdc++ headers are only checked for memory errors."),
 "C02": (MON, "Bytes of every generated (ABI, type, value) equal an independently written encoder's."),
 "C03": (MON, "JSON of every generated encoding equals the model's; converting it back restores the bytes."),
 "C04": (MON, "Strict and reorderable results of every generated document and permutation agree."),
 "C05": (MON, "Every generated truncation, extension and corruption is accepted exactly when the model's decoder accepts it."),
 "C06": (MON, "Every generated or mutated ABI is accepted exactly when an independent validator accepts it."),
 "C07": (MON, "Every generated ABI loaded in three forms behaves identically and survives export."),
 "C08": (MON, "All suffix and non-suffix omissions of generated extension structs are judged by the model."),
 "C09": (MON + " and by differential observation of the two converters", "Both converters agree on every generated text and byte string of each built-in type."),
 "C10": (NAT, "Random values of a family of about 60 types; every prefix of each encoding."),
 "C11": (NAT, "Random values and random stream call sequences against a model, exact heap buffers watched by ASan."),
 "C12": (NAT, "Random and neighbouring value pairs of all key-able kinds; order oracle written independently."),
 "C13": (MON, "Texts and values generated at the alphabet and length boundaries."),
 "C14": (MON, "Texts generated around the 64-bit and precision limits."),
 "C15": (NAT, "Operand pairs around the magnitude limits judged with 128-bit arithmetic."),
 "C16": (MON, "Decimal texts around every type's limits."),
 "C17": (MON, "Bit patterns incl. subnormals, halfway decimal texts; oracle is exact rational arithmetic."),
 "C18": (MON, "Instants around calendar boundaries; oracle is an independent proleptic Gregorian calendar."),
 "C19": (MON, "One known finding: checksums of WIF private keys are not verified by this library."),
 "C20": (MON, "Oracles: own RIPEMD-160, base-58, hex; frozen murmur model."),
 "C21": (MON, "Oracle: an independent JSON parser and UTF-8 decoder."),
 "C22": ("runtime monitoring: interleaved histories over several contexts judged against a per-context model", "Each call's outcome is compared with that of the same call replayed alone."),
 "C23": ("runtime monitoring: ThreadSanitizer plus result comparison under concurrent stress", "Races in the schedules executed, as judged by happens-before; results compared with single-threaded runs."),
 "C24": (NAT, "Sizes 1 to 70 and word widths 8 to 128 bits."),
 "C25": (NAT, "Random and neighbouring triples of reflected and built-in types."),
 "C26": (NAT, "Reflected types of the harness and of the library against an independent table."),
 "C27": (MON, "Native state-history types against a model of the published layout."),
 "C28": (NAT, "Struct pairs sharing members in every combination of kinds."),
 "C29": (MON, "Callback counts and thrown-at-every-step observations."),
 "C30": ("runtime monitoring: allocation accounting around every decode", "Peak and total allocation bound as a linear function of the input length."),
 "C31": ("runtime monitoring: operators executed under UBSan against 128-bit integer arithmetic", "Random and edge operands; only representable results are judged."),
 "C32": ("runtime monitoring: every overload executed under ASan/UBSan with the message's storage freed before the exception is read", "Random messages, lengths and codes; all error codes of the four lists."),
 "C33": ("runtime monitoring: random request sequences against the token list each document was written from, under ASan/UBSan", "Random documents and damage; what malformed bytes inside strings do is C02's and C06's."),
 "C34": ("runtime monitoring: descriptions of requested types and positions in streams against a reference model of the definition, under ASan/UBSan", "Random well-formed ABIs of up to a few dozen types; names asked for in random order."),
 "C35": ("runtime monitoring with injected faults: every allocation of each call made to fail, once and lastingly, under ASan/UBSan/LSan; the call repeated undisturbed and compared", "C++ allocations (operator new) of randomly generated calls; failures of malloc inside rapidjson are not injected."),
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        t, n = T[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                       "technique": t, "level": "exploration", "level_note": n + " Holds for the executions observed, no more; trusts the compiler's sanitizers and the model in /verif."})
    else:
        na.append({"property": i, "reason": "no check built yet"})
json.dump({"version": 1, "setup_cmd": "python3 -m lib.build", "checks": checks, "not_applicable": na,
           "notes": "No hooks: everything is observed through public interfaces, allocation hooks in the harness, and sanitizers. VERIF_SEED selects the workload."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "without")
