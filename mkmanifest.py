#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
N = {
 "C01": "Seeded exploration: about 60 collection types x generated key layouts x 12 hash-builder behaviours x 4 kinds of operating-system randomness, every lookup form compared with an ordered reference model, full audits after every phase.",
 "C02": "Seeded exploration of thread interleavings: real threads, one running at a time, switched at library edges, loads, stores and callbacks; stalled and panicking readers; every answer compared with the answer alone. A violation counts only if the same plan without overlap and faults is clean.",
 "C03": "Seeded exploration: one or more callbacks of one operation panic at a sampled occurrence; the panic must reach the caller and complete audits of all collections must agree with the reference model afterwards. Positions are sampled from a dry run's profile.",
 "C04": "Seeded exploration: token ledger for keys, values and hash builders plus allocation census and AddressSanitizer, with panics in every callback and allocation failure at sampled positions.",
 "C05": "Seeded exploration: hash, equality and builder lie at sampled moments; AddressSanitizer, debug assertions, token liveness and pointer distinctness judged throughout, answers judged strictly once lookup-only lies stop.",
 "C06": "Seeded exploration: writes through every mutable path by interleaved clients against a reference model, clones audited apart.",
 "C07": "Seeded exploration: iterator programs (several live iterators, clones, adaptors, abandonment, panicking closures) judged step by step against the collection's recorded order.",
 "C08": "Seeded exploration: set-algebra programs over pairs of frozen, specialised and standard sets judged step by step against ordered-set algebra, also interleaved and after panics.",
 "C09": "Seeded exploration: pairs of collections of the same contents built with different seeds, orders, constructors and layouts, plus near misses; reflexivity and symmetry.",
 "C10": "Seeded exploration: misreporting, stalling, failing and resuming sources, failing hashers and allocations, payloads that must be refused; the collection must hold exactly what was delivered.",
 "C11": "Seeded exploration: sinks that fail at every sampled write and formatters that fail; complete output or an error, never both absent.",
 "C12": "Seeded exploration: own steps of every operation counted in library edges, loads and stores and compared with fixed polynomials; colliding hashers; clients stalled at arbitrary points while others must finish.",
}
m = {
 "version": 1,
 "setup_cmd": "bash ./build.sh",
 "checks": [
  {"property": p, "quick_cmd": f"bash ./check.sh {p} quick", "thorough_cmd": f"bash ./check.sh {p} thorough",
   "technique": "deterministic simulation with fault injection (seeded schedules and faults, reference model)",
   "level": "exploration", "level_note": N[p] + " Trusts: rustc, AddressSanitizer, the harness's reference model; sequentially consistent interleavings only; sampling, not proof."}
  for p in N],
 "not_applicable": [
  {"property": "C13", "reason": "The macro runs inside the compiler as a pure function of its token stream; no schedule, time, I/O, randomness of its own or fault can influence it at run time, so there is nothing for a simulator to control."},
  {"property": "C14", "reason": "Len on standard types is a pure one-expression delegation to the type's own length; no concurrency, time, I/O, randomness, user callback or allocation takes part, so no schedule or fault can change it."},
 ],
 "notes": "No hooks in /repo: every seam the simulator needs exists already (hash builders, generic keys and values, iterators, formatter sinks, closures) or lies below the crate (global allocator, getrandom, compiler instrumentation inserted when the checks build it).",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
