#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run it to regenerate the file)."""
import json, os, sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]

TECH = "explicit-state model checking of the implementation: exhaustive enumeration of bounded %s of the real code against a reference model"
GENERIC = ("Holds on every execution within the bounds listed in the evidence (parts[].bounds); each execution runs the real "
           "code built from /repo and is compared step by step with an independent reference model. Nothing is claimed beyond the bounds. ")
NOTES = {  # id: (what is enumerated, extra note)
    "C01": ("operation histories", "Trusted: the in-memory storage of the harness."),
    "C02": ("operation histories and crash points", "A crash point is every completed block write; torn blocks are covered by C04."),
    "C03": ("accesses (boundary grid)", "Values are a grid around every boundary, including wrap-around values, not all 2^64."),
    "C04": ("histories and fault placements", "At most the stated number of faults per history."),
    "C05": ("histories with resizes and refused resizes", ""),
    "C06": ("histories and stream answers (short reads, faults)", "Trusted: the harness's in-memory stream as a model of io.ReadWriteSeeker."),
    "C07": ("operation histories and reachable states", ""),
    "C08": ("operation histories and crash points", ""),
    "C09": ("open-flag combinations and histories", ""),
    "C10": ("shrink/grow/write histories over garbage-filled storage", ""),
    "C11": ("transfer splittings and failure positions", ""),
    "C12": ("histories and storage fault placements", ""),
    "C13": ("inputs, run lengths and delivery splittings", ""),
    "C14": ("inputs, run lengths and delivery splittings", ""),
    "C15": ("images", "Command-line tools run as real processes in scratch directories."),
    "C16": ("truncation points and byte alterations", "Single alterations only; gzip's CRC-32 and length are trusted as specified."),
    "C17": ("fault positions", ""),
    "C18": ("inputs, delivery splittings and fault positions", ""),
    "C19": ("image sizes and format sequences", "Images are scratch files."),
    "C20": ("call sequences and damaged table bytes", "Images are scratch files."),
    "C21": ("clusters, cluster pairs and sector ranges", "Images are scratch files."),
    "C22": ("names over a small alphabet", ""),
    "C23": ("files and cluster indexes", "Directory entries are injected into a mounted volume by field type, since the code has no way to create them."),
    "C24": ("boot-sector field grids and truncations", ""),
    "C25": ("directory-entry field values", ""),
    "C26": ("allocation tables (successor functions)", "The generic driver's dependencies are injected by field type."),
    "C27": ("small volumes and failure positions", "The generic driver's dependencies are injected by field type."),
    "C28": ("path strings", ""),
    "C29": ("directory trees with links, and paths", "Paths are normalized lexically before resolution (as documented)."),
    "C30": ("operation histories and reachable trees", "Against an in-memory file-system implementation of the driver interface."),
    "C31": ("open/IO/close histories and storage faults", "Against an in-memory file-system implementation of the driver interface."),
    "C32": ("operations, mount flags and histories", "Against an in-memory file-system implementation that records every call."),
    "C33": ("trees with links, start paths and failing removals", "Against an in-memory file-system implementation."),
    "C34": ("operation histories", "Against an in-memory implementation that asserts its documented contract on every call."),
    "C35": ("directory sizes and page-size sequences", "Against an in-memory file-system implementation."),
    "C36": ("derivation sequences", ""),
    "C37": ("flag combinations", ""),
    "C38": ("geometries", "The expected table is an independent copy kept in the harness."),
    "C39": ("inode flag words, modes and metadata", ""),
    "C40": ("attributes, times and sequences of changes", "The generic driver's dependencies are injected by field type."),
    "C41": ("combinations of missing features, operations and histories", "Against an in-memory file-system implementation whose handles have any subset of the optional interfaces."),
    "C42": ("operation histories, image sizes and damaged images", "Runs inside real tests of the testing package, whose outcome is observed."),
}
built = set(sys.argv[1:]) if len(sys.argv) > 1 else None
areas = {a for a in os.listdir(os.path.join(here, "mc"))}
AREA = {}
for a, ids in {"blockcache": range(1, 7), "stream": range(7, 13), "compression": range(13, 19), "fat8": range(19, 24),
               "fat": range(24, 28), "driver": range(28, 36), "misc": range(36, 40)}.items():
    for i in ids:
        AREA["C%02d" % i] = a
AREA["C40"] = "fat"
AREA["C41"] = "driver"
AREA["C42"] = "fixtures"
checks, na = [], []
for p in props:
    i = p["id"]
    if AREA[i] in areas and os.path.exists(os.path.join(here, "mc", AREA[i], "main.go")):
        what, extra = NOTES[i]
        checks.append({
            "property": i,
            "quick_cmd": "./check %s quick" % i,
            "thorough_cmd": "./check %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": TECH % what,
            "level": "model_checking",
            "level_note": (GENERIC + extra).strip(),
        })
    else:
        na.append({"property": i, "reason": "The checker for this property is not built yet."})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checkers are built into /repo's module with go build -overlay and use its public API (private fields are only hashed, or set by field type through reflection). Counterexamples are replayed with './check replay FILE'."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
