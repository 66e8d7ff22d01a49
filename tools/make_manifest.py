#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REL = "; conformance: histories run on the real library in the repository's 14 build configurations and more, outcomes decided by the specification, recorded traces validated by TLC"
T = {
 "C01": ("TLA+ specification of DVB-CSA (CSA.tla) checked by TLC; real outcomes compared with it, traces validated by TLC", "Every explored input is decided by the TLA+ cipher itself (translated to C++ for bulk, TLC evaluates traces directly). Inputs are a sample: all lengths 0..600, all single-byte patterns, key classes, sizes to 2^31+, random bulk search and coverage-guided search judged by the translated specification; trusts the published vectors and the translator (cross-checked against TLC every run)."),
 "C02": ("TLA+ specification of DVB-CSA (CSA.tla) checked by TLC; real outcomes compared with it, traces validated by TLC", "As C01, for decryption."),
 "C03": ("TLA+ library model (CsaLib) explored by TLC, every transition replayed; round-trip relations decided on real executions", "Symbolic cipher: inverse proved for all block and stream ciphers within the model's bounds; proved for packets of any length over any block cipher and keystream, and for the block cipher's rounds, by TLAPS (CsaProof, CsaRoundsProof; CsaLink ties CSA to them). Real code: sampled payloads and lengths through both interfaces in 14 configurations."),
 "C04": ("TLA+ batch model (CsaBatch) explored by TLC, every batch replayed; batch outcomes against single-packet outcomes", "All batch sizes and all lengths 0..184 in lanes of every configuration; contents sampled; model batches exhaustive within bounds, the batch machine proved without bounds by TLAPS (CsaSlotsProof, refined by CsaBatch). The single-packet results are taken from the same build."),
 "C05": ("TLA+ batch model (CsaBatch) explored by TLC, every batch replayed; outcomes against the packet alone", "Lane independence for sampled compositions in all 14 configurations, references from the same build with the packet alone."),
 "C06": ("TLA+ batch model (CsaBatch) explored by TLC, every batch replayed; outcomes against truncated packets", "All 24 legal limits, lengths around, above and far above the limit (to 2^20) in all configurations."),
 "C07": ("TLA+ relations (CsaRel, CSA keystream) decided on real executions; batch model explored by TLC", "All lengths 0..184 with residues in all native configurations, larger ones sampled; keystream from the TLA+ cipher."),
 "C08": ("TLA+ library model (CsaLib) explored by TLC; replay with guarded memory; frame condition of the specification observed", "Accesses outside are observed with inaccessible pages directly before/after payloads, descriptors, control words and key contexts, read-only key contexts and descriptors while processing, read-only control words while setting, and shadow copies; reads within a page beyond the other end are only caught at page ends (both ends tried)."),
 "C09": ("TLA+ library model (CsaLib) explored by TLC, every transition replayed; random histories against fresh-process references", "Histories sampled plus all transitions of the bounded model; references from a fresh process each."),
 "C10": ("TLA+ library model (CsaLib) explored by TLC, every transition replayed; random histories against fresh-process references", "As C09 with up to 60 contexts."),
 "C11": ("TLA+ thread model (CsaConc); TLC-generated and enumerated schedules replayed with real threads at memory-access granularity", "Every schedule of the bounded model (which refines CsaThreads, proved for any number of threads) plus single preemption at (almost) every memory access of small programs, two preemptions sampled, more where the recorded footprints of the threads overlap. Sequentially consistent schedules at -O1 under clang; weak-memory effects only via the unscheduled runs."),
 "C12": ("TLA+ library model with failing allocations (CsaLib) explored by TLC, every transition replayed under a controlled allocator", "Allocation failures at every allocator call, minimal alignment, address reuse; leaks and double frees counted exactly."),
 "C13": ("one TLA+ specification replayed on 30 build configurations, outcomes compared, traces of one accepted for another by TLC", "30 configurations incl. emulated aarch64/ppc64/ppc; AltiVec does not compile with the cross compiler here (nor does it in the repository's own test run) and is not covered."),
 "C14": ("TLA+ specification of DVB-CSA: key bits checked by TLC; both interfaces compared with it for systematic control words", "All single-bit neighbours of four words, every value of every byte, checksum variants; both interfaces."),
 "C15": ("TLA+ library model with illegal limits (CsaLib) explored by TLC, replayed; every limit 0..259 and special ones tried", "All limits 0..259 and 23 special values in all configurations."),
 "C16": ("TLA+ library model (CsaLib) explored by TLC, replayed with failing allocator and floating-point environments", "Allocator (malloc family, mmap, sbrk) denied during all operations, output captured, x87/SSE state compared in five environments."),
 "C17": ("TLA+ specification has no addresses: outcomes at many placements validated against the same behaviour", "All alignments 0..63 of payloads, control words; adjacency and page crossings; five configurations exhaustively, the rest sampled."),
 "C18": ("TLA+ batch and library models explored by TLC, replayed with garbage after the terminator", "Every batch size 0..maximum in every native configuration; entries after the terminator are poisoned."),
 "C19": ("error-propagation model (CsaErr) explored by TLC; damage relations decided on real executions", "Symbolic for every subset of damaged cells up to 6; real code: sampled damages in 14 configurations."),
 "C20": ("accounting model of the calls (CsaCost) checked by TLC; work and stack of real calls measured and compared with the model's closed forms evaluated by TLC", "Work is basic blocks executed plus memory moved (clang, -O1), compared up to a factor of three with the model's passes and copies, calibrated on small calls of the same build; stack is measured in pages of the normally optimized build. Six native configurations; lengths sampled to 2^24, descriptor lengths to 2^32-1, up to 5000 contexts."),
}
m = {"version": 1, "setup_cmd": "python3 tools/check.py --setup",
     "checks": [{"property": p, "quick_cmd": f"python3 tools/check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check.py {p}",
                 "technique": t, "level": "model_checking", "level_note": n} for p, (t, n) in T.items()],
     "not_applicable": [], "notes": "TLA+ with TLC; no hooks in /repo (the public API is driven as it is). See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
