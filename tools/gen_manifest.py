#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "Searches generated inputs; says nothing about inputs it did not generate. Trusts the specification model (validated against vectors from hashlib and the published test vectors before every run) and the compiler. "
T = {
 "C01": ("model-based property testing of one-shot hashing (proptest) against a specification model, on three implementations", G),
 "C02": ("stateful model-based testing of update/write/finalize/clone/flag histories against a specification model", G),
 "C03": ("model-based property testing of BLAKE2bp/sp one-shot hashing against a tree model", G),
 "C04": ("stateful model-based testing of BLAKE2bp/sp update/write/finalize/clone histories against a tree model", G),
 "C05": ("model-based testing of generated job lists and batch sequences against hashing each job alone in the model", G),
 "C06": ("stateful model-based testing of update_many mixed with single operations against per-state models", G),
 "C07": ("differential testing of generated histories over eight build configurations, with the model as referee", G + "Covers x86-64 with AVX2 here; no other machine."),
 "C08": ("stateful model-based testing of the byte count, with the counter preset near word boundaries through a hook", G + "A preset counter is trusted to behave as one reached by hashing; if the hook does not compile with the code under test, cases that need it are left out."),
 "C09": ("model-based testing with counters preset near boundaries through a hook, and real inputs over 4 GiB", G + "A preset counter is trusted to behave as one reached by hashing; the real long inputs check 2^32 without the hook."),
 "C10": ("model-based testing of generated setter sequences with legal and illegal arguments", G),
 "C11": ("property testing of hash conversions and comparisons against byte-level definitions", G),
 "C12": ("metamorphic testing: twin histories that differ only in secrets must print alike", G + "Only renderings through the standard format traits are looked at."),
 "C13": ("generated histories under AddressSanitizer, memcheck and Miri, on all implementations", G + "Undefined behaviour is what AddressSanitizer, memcheck and Miri report."),
 "C14": ("model-based testing of generated command lines and input files with injected read splits", G + "System-call behaviour is varied by an LD_PRELOAD shim."),
 "C15": ("fault-injection testing of generated command lines and inputs against a model of the required outcome", G + "Faults are injected by an LD_PRELOAD shim and by real unreadable inputs."),
 "C16": ("property testing under valgrind memcheck with the compared bytes marked undefined", G + "Decides for the compiled x86-64 release builds tested; memcheck's definedness tracking is trusted. Instruction timing differences are outside it."),
 "C17": ("model-based testing of concurrent and interleaved histories against isolated models", G + "Thread schedules are the operating system's."),
 "C18": ("model-based testing of histories interpreted by Miri for big-endian and 32-bit targets, and compiled to WebAssembly", G + "Miri's emulation of the targets is trusted; little data per case under it."),
 "C19": ("property testing of legal histories in builds with assertions and overflow checks: no panic, and the right result", G),
 "C20": ("generated histories under valgrind memcheck with key and message bytes marked undefined", G + "Decides for the compiled x86-64 builds tested (optimized and not); memcheck's definedness tracking is trusted. Instructions whose own duration depends on data are outside it."),
 "C21": ("generated histories, large batches and long inputs with allocations counted and on a small stack", G + "Sees what goes through the global allocator; a stack need that grows is seen once it exceeds 128 KiB."),
 "C22": ("metamorphic testing: generated commands with and without limits on memory and open files must do the same", G + "Sees private writable memory and open files."),
 "C23": ("model-based property testing of the bundled C functions between inaccessible pages, with undefined behaviour trapped, and under memcheck", G),
}
GUIDED = {f"C{i:02}" for i in [*range(1, 14), 18, 19, 20, 21, 23]}
checks = []
for p, (t, n) in T.items():
    checks.append({
        "property": p,
        "quick_cmd": f"VERIF_TIER=quick ./check {p}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check {p}",
        "evidence_file": f"evidence/{p}.json",
        "technique": t + ("; random and coverage-guided generation" if p in GUIDED else ""),
        "level": "exploration",
        "level_note": n.strip(),
    })
m = {
    "version": 1,
    "setup_cmd": "./check oracle",
    "hooks": {
        "guard": "cfg(blake2_simd_verif)",
        "enable": "RUSTFLAGS='--cfg blake2_simd_verif' when building the driver crate in /verif/driver, which depends on /repo's crates by path (pbt/src/cfgs.rs); without it, or when the hook does not compile, the driver builds against the plain crates",
        "source_commits": ["be9f83e1e24508f51d018bf437bda63b7f8984cf"],
    },
    "checks": checks,
    "not_applicable": [],
    "notes": "Every check builds the harness and the code under test itself, in /verif/target. DESIGN.md describes the machinery.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
