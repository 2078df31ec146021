#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the table below and properties.jsonl.
import json, os
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.join(here, "..")
T = {
 "C01": ("exhaustive enumeration of bounded operation histories on the real Seq in lockstep with a list model", "model_checking"),
 "C02": ("exhaustive enumeration of bounded operation histories, every offset classified after every operation", "model_checking"),
 "C03": ("exhaustive enumeration of bounded push histories over shapes, against independent offset arithmetic", "model_checking"),
 "C04": ("exhaustive enumeration of ownership histories under a ledger of every value with a destructor", "model_checking"),
 "C05": ("exhaustive enumeration of histories under a checking allocator, plus a smaller exhaustive enumeration under the Miri interpreter", "model_checking"),
 "C06": ("exhaustive enumeration of types x lengths x construction routes against an independent layout function", "model_checking"),
 "C07": ("exhaustive enumeration of boundary lengths x nesting x containers against 128-bit arithmetic", "model_checking"),
 "C08": ("exhaustive allocation-fault enumeration over all bounded histories, each faulted execution in its own process", "fault_enumeration"),
 "C09": ("exhaustive callback-panic enumeration over all bounded histories", "fault_enumeration"),
 "C10": ("exhaustive enumeration of initializers x lengths x sources with a call-order log", "model_checking"),
 "C11": ("exhaustive enumeration of strings x length types x places x mutations against std str", "model_checking"),
 "C12": ("exhaustive enumeration of tuple shapes x field routes x mutations against a model", "model_checking"),
 "C13": ("exhaustive enumeration of clone/copy destinations and later mutation/destruction orders", "model_checking"),
 "C14": ("exhaustive enumeration of generated struct definitions x controller values x routes", "model_checking"),
 "C15": ("exhaustive enumeration of (old, new) controller pairs over generated struct definitions", "model_checking"),
 "C16": ("exhaustive differential enumeration of wrappers against their inner types", "model_checking"),
 "C17": ("exhaustive enumeration of iterator call sequences against a list iterator", "model_checking"),
 "C18": ("exhaustive enumeration of a product grammar of client programs, decided by the compiler against an explicit model of which must be accepted", "model_checking"),
 "C19": ("exhaustive enumeration of push histories with every storage request counted", "model_checking"),
 "C20": ("exhaustive enumeration of chains of moves between owners with neighbours observed", "model_checking"),
 "C21": ("exhaustive enumeration of a grid of client programs, decided by the compiler against an explicit model of what each declaration exposes to each place", "model_checking"),
}
NOTE = {
 "default": "Every execution of the real code within the stated bounds is run and compared with an independent model after every operation; nothing is sampled. Assumes behaviour beyond the bounds (more operations, longer parts, other element types) is uniform with what is explored, and trusts rustc, the harness's model and its checking allocator.",
}
built = [l.strip() for l in open(os.path.join(root, "tools/built.txt")) if l.strip()]
checks = []
for i in built:
    t, lv = T[i]
    checks.append(dict(property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough",
        technique=t, level=lv, level_note=NOTE.get(i, NOTE["default"])))
na = []
m = dict(version=1, setup_cmd="cd mc && cargo build --offline --quiet --release --lib", checks=checks, not_applicable=na,
  notes="No hooks in /repo: every check uses the public API. Repairs of genuine defects are the 'fix:' commits listed in known_findings.txt.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
