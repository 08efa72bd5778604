#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from lib/stages.py and the texts below."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "lib"))
import stages

MODEL = "runtime monitors comparing every observation with a list-of-runs model over random histories"
T = {
 "C01": (MODEL, "every get/size/number_of_slices of the driven histories"),
 "C02": (MODEL + " (both iteration ends, all bound kinds, refused ranges)", "ranges and interleavings driven"),
 "C03": ("trace monitor of every split_at/try_join callback against the predicted protocol", "histories driven"),
 "C04": ("shape monitor on paths reported by cursor_to and operation-count monitor in the index type", "trees grown up to thousands of entries"),
 "C05": ("runtime monitors: hostile cursors vs the model, agreement of all sources of a cursor", "histories and hints driven"),
 "C06": ("runtime monitors: path fidelity of BoundedCursor for 15 lengths, counted comparisons with and without the hint, per level, for lookups, iteration and insertions", "paths and trees driven"),
 "C07": (MODEL + " with identities of runs tracked for slice references", "histories driven"),
 "C08": ("protocol monitor of borrow states, re-entrant probes, user code inside the callbacks of queries, value ledger, AddressSanitizer", "histories driven"),
 "C09": (MODEL + " for families of clones, values owning snapshots of the family, AddressSanitizer", "histories driven"),
 "C10": ("clone-count monitor in the slice type, address monitor for sharing", "histories driven"),
 "C11": ("ThreadSanitizer and Miri race detection plus per-thread models under randomised schedules", "schedules that occurred in the runs"),
 "C12": ("value ledger, counting global allocator and AddressSanitizer over random histories, also of values owning references or snapshots and of every shape", "histories driven"),
 "C13": ("fault injection in every callback kind with value ledger, AddressSanitizer and reads of all trees afterwards", "fault positions drawn at random over driven histories"),
 "C14": ("hostile trait implementations under AddressSanitizer, Miri and monitors for unchecked assumptions", "hostile behaviours implemented"),
 "C15": ("Miri and AddressSanitizer over the model-checked workloads in every configuration", "histories driven"),
 "C16": ("runtime monitors: refused calls must panic and leave the observed state equal to the model", "histories driven"),
 "C17": ("runtime monitors over a non-commutative ordered group as index type", "histories driven"),
 "C18": ("runtime monitors: round trips in two formats and damaged documents against the model and plain decoding", "documents driven"),
 "C19": ("runtime monitor against explicit sets, exhaustive over a small domain", "all pairs of ranges over the domain"),
 "C20": (MODEL + ", clone counts, ledger and injected clone failures", "histories driven"),
 "C21": ("marker probes compiled against the crate, accepted programs run under Miri with thread-affine values", "probe table and attack corpus"),
 "C22": ("lifetime attack programs compiled against the crate, accepted ones run under Miri", "attack corpus"),
 "C23": ("differential monitors: fuzz runner on random commands, mock against an independent model", "command sequences driven"),
}
NA = [{"property": "C24", "reason": "RleTree::drain and its iterator are todo!() in this version, so there is no execution to observe"}]
props = sorted(stages.QUICK)
checks = []
for p in props:
    tech, note = T[p]
    checks.append({"property": p, "quick_cmd": "python3 run.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p,
                   "technique": tech, "level": stages.LEVELS.get(p, "exploration"),
                   "level_note": "held on what was observed: " + note + "; counts in evidence/%s.json" % p})
na = NA + [{"property": p, "reason": "check under construction"} for p in sorted(T) if p not in props]
m = {"version": 1, "setup_cmd": "python3 run.py --setup",
     "hooks": {"guard": "feature \"fuzz\" (already in the crate: exports mock::Mock and RleTree::validate); no hook of our own was needed",
               "enable": "cargo --features fuzz through harness/Cargo.toml", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
