#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of checks and the notes below."""
import json
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "online comparison of every call with an independent executable model of FrodoKEM (runtime monitor)"
T = {
 "C01": ("runtime monitor: round-trip oracle over structured and hostile randomness", "Held on the executions run; trusts nothing but equality of the two secrets. All 27 build configurations."),
 "C02": ("runtime monitor: rejection oracle hash(ct||s) over enumerated and cancelling alterations", "Quick flips one bit in every coefficient and alterations in 12 classes; thorough flips every single bit. Trusts OpenSSL SHAKE and the collision argument that an altered ciphertext is not a re-encryption."),
 "C03": (MODEL, "Held on the executions run; trusts the model in src/oracle.c (written from the specification) and OpenSSL."),
 "C04": (MODEL, "Held on the executions run; trusts the model in src/oracle.c (written from the specification) and OpenSSL."),
 "C05": (MODEL, "Held on the executions run, with decryption errors placed exactly on and around the decoding boundary; trusts the model and OpenSSL."),
 "C06": ("differential runtime monitor across compilers, optimisation levels, implementations and target macros", "Held on the configurations and inputs run; 32-bit and ARM code generation is represented by the target macros only (no such compiler here)."),
 "C07": ("AddressSanitizer + UndefinedBehaviorSanitizer, guard pages and write-protected inputs under hostile inputs", "Held on the executions run; hand-written intrinsics are seen at C level. OpenSSL itself is not instrumented."),
 "C08": ("MemorySanitizer with shadow checks on outputs; stack/heap/output-fill perturbation on production builds", "Held on the executions run. MSan covers the builds with no uninstrumented dependency (own AES, SHAKE)."),
 "C09": ("trace monitor: SanitizerCoverage edge/load/store and division-operand traces compared over secrets", "Held on the pairs of secrets run; observes clang IR-level traces (and machine-level traces with valgrind lackey in the thorough tier)."),
 "C10": ("runtime monitor: scan of stack, static data and heap for secret values after each call", "Held on the executions run; registers are not scanned; windows of 8 bytes (byte strings) and 32 coefficients (matrices)."),
 "C11": ("ThreadSanitizer and concurrent stress against the sequential model", "Held on the schedules observed."),
 "C12": ("fault-injecting interposition of open/read with an exactly-once monitor over the delivered bytes", "Fault sequences enumerated up to the stated bound; trusts the interposed system-call wrappers to be the only source."),
 "C13": ("fault enumeration: every provider and random-source call failed in turn, return code monitored", "Each single failing call position enumerated (and fail-from-k on)."),
 "C14": ("runtime monitor: comparison with OpenSSL SHAKE over all lengths in a range, canaries on outputs", "All input lengths and output lengths in the stated ranges; trusts OpenSSL."),
 "C15": ("runtime monitor: comparison with OpenSSL AES over keys, lengths, aliasing and alignments", "Held on the executions run; trusts OpenSSL."),
 "C16": ("history monitor: long mixed operation histories against memoised expectations, heap and descriptor accounting", "Held on the histories run (length stated in the evidence)."),
 "C17": ("differential runtime monitor of the Python reference against the model", "Held on the inputs run; building blocks are exercised over their whole small domains."),
 "C18": ("runtime monitor: enumeration of malformed arguments, exception required", "All lengths in the stated range around the right one and a list of variant names."),
 "C19": ("runtime monitor of big-endian-emulated builds (byte-swapping compiler pass) against the independent model", "Big-endian execution is emulated by a compiler pass on a little-endian host; pointers keep their native form."),
 "C20": ("runtime monitor: exhaustive observation of the sampler's input/output map through the public API", "All 65536 inputs observed for each matrix (coverage counted at run time)."),
 "C21": ("monitor on the random source: consumption, freshness and single-bit sensitivity of every random bit", "All random bit positions enumerated."),
}
NA = {}
HOOKS = None

def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": [], "not_applicable": []}
    for p in props:
        if p in checks.TABLE:
            t, note = T[p]
            m["checks"].append({"property": p, "quick_cmd": "python3 bin/check.py %s" % p,
                                "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py %s" % p,
                                "evidence_file": "evidence/%s.json" % p, "technique": t, "level": checks.TABLE[p][0], "level_note": note})
        else:
            m["not_applicable"].append({"property": p, "reason": NA.get(p, "check under construction")})
    m["notes"] = "No hooks are needed in /repo: monitors observe the public API, link boundaries and compiler instrumentation."
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

main()
