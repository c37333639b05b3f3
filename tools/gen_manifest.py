#!/usr/bin/env python3
"""Writes MANIFEST.json. A property is claimed when it is listed in DONE."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENUM = "bounded exhaustive exploration of the real code, every execution compared with a reference model"
FAULT = "exhaustive single-fault enumeration: every I/O call of every history fails, comes up short or is the crash point"
T = {
 "C01": (ENUM, "all trees, listing orders, names and sizes in the listed groups; contents judged by an independent decoder of the on-disk format"),
 "C02": (ENUM, "same space as C01; every structural condition evaluated on the image bytes; extents up to 4 GiB files through a sparse device"),
 "C03": (ENUM, "all search-tree shapes up to the bound, placements and markers, built by an independent image builder; every name of an alphabet looked up"),
 "C04": (ENUM, "every (offset, length) range on every size class, on byte-exact images"),
 "C05": (ENUM, "all images of the builder, all copy strategies, repacked twice"),
 "C06": (ENUM, "every sector of the compressed image is decompressed and compared with the plain image; CLI end to end"),
 "C07": (ENUM, "all combinations of valid / damaged descriptors at the four offsets"),
 "C08": (ENUM, "all truncations, all single-field corruptions, all pointer graphs within bounds; termination judged by call budget, memory cap and wall clock"),
 "C09": (ENUM, "all names over a hostile alphabet; file system outside the destination is compared before and after, run without privileges"),
 "C10": (FAULT, "every truncation class and every failing system call of each extraction history on the real binary"),
 "C11": (FAULT, "every failing, short or interrupted call of each pack/build-image/compress history on the real binary and the library"),
 "C12": (FAULT, "every crash point and failing call of each history on the real binary; survivors decoded independently"),
 "C13": (ENUM, "both sides of every limit"),
 "C14": (ENUM, "all rule lists up to the bound over an alphabet of rules; wax is trusted for the meaning of a single glob"),
 "C15": (ENUM, "all small trees x layouts, all single edits; SHA3 of the sha3 crate trusted"),
 "C16": (ENUM, "request sequences to the real daemon over a FUSE protocol socket; kernel side simulated"),
 "C17": (FAULT, "every device or source call of every library operation fails once"),
 "C18": (ENUM, "all pairs and triples of names up to the bound"),
 "C19": (ENUM, "all operation sequences up to the bound on every device, against a byte array"),
 "C20": (ENUM, "same space as C01; recorded events replayed against the decoded image"),
 "C21": (ENUM, "all option combinations within bounds on the real binary"),
 "C22": (ENUM, "all pending patterns up to the bound; sync and async builds of the same harness compared case by case"),
 "C23": (ENUM, "all small images and paths on the real binary against model output"),
 "C26": (FAULT, "the real command sources compiled against a stand-in for tauri; all small trees x layouts x commands, every I/O call failing, every truncation class, hostile names, source/destination aliasing"),
 "C25": (FAULT, "the real front end compiled against stand-ins for the browser and yew; all small trees x layouts x operations, all completion orders within bounds, every promise rejected, every space limit, sources changed ahead of every operation, all click sequences up to the bound"),
 "C24": (ENUM, "all argument layouts within bounds on the real binary against model outcomes"),
}
NA = {
}
FE = {"C10", "C11", "C12", "C17", "C25", "C26"}
done = open(os.path.join(here, "tools/done.txt")).read().split()
checks = []
for p in sorted(done):
    t, n = T[p]
    checks.append({
        "property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
        "evidence_file": f"evidence/{p}.json", "technique": t,
        "level": "fault_enumeration" if p in FE else "model_checking", "level_note": n,
    })
na = [{"property": p, "reason": r} for p, r in sorted(NA.items())]
na += [{"property": p, "reason": "check not built yet"} for p in sorted(T) if p not in done]
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "no hooks: every check drives the public library interface or the real binaries; the desktop application's sources are compiled unchanged in /verif/desktop against a stand-in for tauri, and the browser front end's in /verif/web against stand-ins for the browser"}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
