#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
levels = {}
for f in glob.glob(V + "/harness/props_*.cpp"):
    for m in re.finditer(r'RegProp r\w+\(\{ "(C\d+)", "(\w+)"', open(f).read()): levels[m[1]] = m[2]
T = {  # technique, what it gives, what it trusts
"C01": ("generated hierarchies against a reference encoder", "an independent EA IFF-85 encoder decides every written byte"),
"C02": ("generated files against a reference model of the hierarchy", "every public field, link and the stream position are compared with the model"),
"C03": ("round-trip property over generated hierarchies, files and registries", "both directions, built-in and generated extension types"),
"C04": ("structured and coverage-guided fuzzing under AddressSanitizer and UBSan", "every operation of the library is applied to what was read; allocations are counted"),
"C05": ("exhaustive truncation and read-error injection over generated files", "every prefix of every generated file (sampled above 700 bytes)"),
"C06": ("differential testing against a reference validator and a strict parser", "edited hierarchies and mutated bytes; both verdicts must agree in both directions"),
"C07": ("enumeration and random generation of IDs against a reference rule", "large parts of the 2^32 IDs enumerated, all of them in the thorough tier"),
"C08": ("stateful model-based testing of editing histories", "the whole forest is compared with a model after every operation"),
"C09": ("metamorphic and differential testing of pairs of hierarchies", "equal copies, single differences anywhere and unrelated pairs"),
"C10": ("differential testing against a reference search", "returned pointers are compared in order"),
"C11": ("differential and metamorphic testing against a scoping model", "returned pointers; answers must survive moving shared properties into FORMs"),
"C12": ("model-based testing with instrumented handlers over generated registries", "the log of handler calls must name the responsible handler for every chunk"),
"C13": ("boundary-directed generation of fields and sizes with fault injection", "status, value, counter, position and bytes against 'fits iff counter + field <= size'"),
"C14": ("enumerated and generated values against a byte-level oracle with fault injection", "all 8/16-bit values, all short transfers"),
"C15": ("exhaustive write-fault injection over generated hierarchies", "every output offset fails in turn (sampled above 500 bytes)"),
"C16": ("exhaustive allocation-fault injection over generated inputs", "every allocation fails in turn (sampled above 120)"),
"C17": ("round-trip property: printed text parsed back by an independent parser", "the text must reconstruct the model and contain nothing else"),
"C18": ("generated files and command lines against a model of iffpp", "exit status, complete standard output, messages; in process and as real process"),
"C19": ("generated files and command lines against a model of iffjoin", "exit status and bytes of the output; in process and as real process"),
"C20": ("stateful model-based and metamorphic testing of additions", "contents type after every step, permutations, validity of the result"),
"C21": ("generated failures and successes with captured messages and standard streams", "a message exactly if something failed, with the IDs and numbers it is about"),
"C22": ("differential testing over kinds of sources and destinations", "the same bytes through every kind of stream"),
"C23": ("stateful testing of histories with allocation and descriptor accounting", "live allocations and open descriptors after every operation"),
"C25": ("generated concurrent workloads under ThreadSanitizer, differential against sequential execution", "every transcript must equal the one of the same script run alone; data races are reported by ThreadSanitizer whatever the interleaving"),
"C26": ("model-based testing of generated group types with fault injection", "group types made of the general group functions, with generated rules, against an independent model of bytes, verdicts and text"),
"C24": ("stateful testing of interleaved histories against models and remembered results", "every hierarchy compared with its model after every operation"),
}
checks = []; na = []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    if i not in T: na.append({"property": i, "reason": p.get("na", "")}); continue
    t, note = T[i]
    checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i, "technique": "property-based testing: " + t, "level": levels[i],
        "level_note": "Search, not proof: " + note + ". Trusts the harness's model, the compiler and the sanitizers; bounds and counts are in the evidence file and DESIGN.md."})
m = {"version": 1, "setup_cmd": "python3 build.py quick tsan", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: allocations, exit() and main are redirected at object level by build.py. KNOWN_FINDINGS.txt lists repaired and recorded defects."}
open(V + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
