#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTES = {
    "C02": "Sampled inputs in f32 and f64 up to 2^20 against the exact inverse DFT, round trips and the algebraic laws.",
    "C03": "Random histories on one instance, each answer compared with a fresh instance; assumes histories of up to some dozens of calls show leaks.",
    "C06": "Sampled batches, tuning histories and threads; thread schedules are those the OS gives, not enumerated.",
    "C08": "The same generated calls answered by several builds and compared; only x86_64 backends this host can run are executed.",
    "C19": "Push/flush histories against the offline inverse as a model.",
    "C27": "Model-based file-system histories inside a scratch directory.",
    "C29": "Files made by an independent WAV writer and FLAC encoder; panics raised inside the symphonia decoder crates on damaged FLAC are not charged to the reader; MP3 is not generated.",
    "C30": "Reference model of the feature derivation plus the real command line run with stand-in cargo/uname/lscpu programs.",
    "C31": "Exports run natively, the page script and service worker in node against stand-ins for canvas, WebGL 2 (with a GLSL interpreter) and caches; no real browser or wasm compiler is available, WebGL 1 is not judged.",
    "C33": "Two number types (all trait methods; defaults only) and one backend (required methods only) stand for every user-defined one.",
    "C34": "Special values are placed in sampled inputs; no rounding tolerance is involved except after ordinary calls.",
    "C35": "Every history runs the server program itself on the loopback network in a scratch folder; needs port 3000.",
    "C36": "Both programs run in scratch folders; the measured times themselves are only checked for consistency.",
    "C37": "Allocations are counted by the harness's global allocator on the calling thread; transform backends that do not allocate stand in for the library's own where those may.",
    "C38": "Bytes held are counted on the calling thread, so builds with worker threads are not included; the bounds (1024 bytes a sample and 64 KiB; 256 bytes a sample for streams) are three to ten times what the code uses.",
    "C32": "Both programs are built from /repo and run on generated files.",
}
TECH = {
    "C03": "stateful property-based testing (call histories vs a fresh instance)",
    "C06": "property-based testing (differential: batch/parallel/tuned vs one by one; tuning histories; threads)",
    "C08": "property-based differential testing across build configurations",
    "C15": "stateful property-based testing of planner histories vs the direct transform",
    "C18": "property-based testing against an overlap-add model, dirty buffers, metamorphic relations",
    "C19": "stateful model-based property testing of push/flush histories",
    "C27": "stateful model-based property testing of file-system histories",
    "C29": "property-based testing: independent encoders, decode round trip, corrupted files",
    "C30": "property-based testing against a reference model, stubbed command line",
    "C31": "property-based differential testing against the core library; model-based histories; stubbed browser",
    "C33": "property-based testing of the generic code instantiated with harness-defined types",
    "C34": "property-based testing: metamorphic relations under injected special values, planner histories",
    "C35": "stateful model-based property testing of the running server",
    "C36": "stateful property-based testing of the benchmark programs' files against a model",
    "C37": "property-based testing with a counting allocator; planner histories",
    "C38": "stateful property-based testing with a counting allocator",
    "C32": "property-based differential testing of two programs",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"python3 check.py {p['id']}",
            "thorough_cmd": f"python3 check.py {p['id']} --thorough",
            "technique": TECH.get(p["id"], "property-based testing with proptest against an independent reference oracle"),
            "level": "exploration",
            "level_note": NOTES.get(p["id"], "Exhaustive over small sizes, sampled beyond; compared with an f64 (or double-double) reference within stated rounding tolerances.") + " Evidence lists case counts per sub-check and build.",
        }
        for p in props
        if p["id"] not in NA
    ],
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "No hooks in /repo: every check drives public API. Python 3 and cargo only; all builds go to /verif/target.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
