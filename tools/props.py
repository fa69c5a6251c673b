#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []          # claimed
NA = []         # (id, title, statement, over, text, why, files, symbols, reason)


def prop(id, title, statement, over, text, why, files, symbols, note):
    P.append((id, title, statement, over, text, why, files, symbols, note))


def na(id, title, statement, over, text, why, files, symbols, reason):
    NA.append((id, title, statement, over, text, why, files, symbols, reason))


exec(open(os.path.join(V, "tools", "props_data.py")).read())

TRUST = (" Bounded: decided for every value within the bounds printed in the evidence, nothing is claimed outside them."
         " Trusts clang's IR, the engine (sampled paths are re-run natively), z3 (thorough: obligations re-checked with cvc5 and a newer z3)."
         " A violation is reported only if its model reproduces on the native AddressSanitizer build.")
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for (id, title, st, over, text, why, files, symbols, *_r) in sorted(P + NA):
        assert len(title) <= 80, title
        f.write(json.dumps({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": text},
                            "why_tests_cant": why, "anchors": {"files": files, "symbols": symbols}}) + "\n")
man = {"version": 1, "setup_cmd": "bash engine/build.sh",
       "checks": [{"property": p[0], "quick_cmd": "VERIF_TIER=quick python3 vp.py check " + p[0],
                   "thorough_cmd": "VERIF_TIER=thorough python3 vp.py check " + p[0],
                   "evidence_file": "evidence/%s.json" % p[0],
                   "technique": "bounded symbolic execution of the compiled C++ (LLVM IR) with z3, native replay",
                   "level": "model_checking", "level_note": p[8] + TRUST} for p in sorted(P)],
       "not_applicable": [{"property": n[0], "reason": n[8]} for n in sorted(NA)],
       "notes": "See DESIGN.md. No hooks in /repo: harnesses are compiled with -fno-access-control against the unmodified sources."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
