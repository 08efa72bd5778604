"""What each check runs."""
import attacks

CONFS = [("stable", "+stable", []), ("nightly", "+nightly", ["--features", "nightly"])]


def W(bin, mode="debug", **kw):
    d = {"bin": bin, "mode": mode}
    d.update(kw)
    return d


NOLEAK = "-Zmiri-ignore-leaks"
REUSE = "-Zmiri-address-reuse-rate=0.9"
WEAK = "-Zmiri-preemption-rate=0.05"
MARKERS = "(user_says|spawn|scope|ok_threads|thread|send|sync)"
SETUP = [("debug", "c01")]

QUICK = {
    "C01": [W("c01", scale=6.0)],
    "C02": [W("c02", scale=10.0)],
    "C03": [W("c03", scale=6.0)],
    "C04": [W("c04", scale=1.5)],
    "C05": [W("c05", scale=8.0)],
    "C06": [W("c06", scale=20.0)],
    "C07": [W("c07", scale=10.0)],
    "C08": [W("c08", scale=4.0), W("c08", "asan", features="nightly,fuzz", scale=0.15)],
    "C09": [W("c09", scale=8.0), W("c09", "asan", scale=0.4)],
    "C10": [W("c10", scale=8.0)],
    "C11": [W("c11"), W("c11", "tsan"), W("c11", "miri", scale=0.25, miriflags=WEAK)],
    "C12": [W("c12", scale=4.0), W("c12", "asan", features="nightly,fuzz")],
    "C13": [W("c13", scale=4.0), W("c13", "asan", features="nightly,fuzz"), W("c13", "miri-release", scale=0.1, miriflags=NOLEAK)],
    "C14": [W("c14", scale=4.0), W("c14", "asan"), W("c14", "miri-release", scale=0.25, miriflags=NOLEAK)],
    "C15": [W("c15", "asan"), W("c15", "miri", features="", miriflags=REUSE), W("c15", "miri-release", features="nightly", scale=0.5, miriflags=REUSE),
            W("c15", "miri", name="c15-miri-32bit", target="i686-unknown-linux-gnu", scale=0.3, miriflags=REUSE)],
    "C16": [W("c16", scale=10.0)],
    "C17": [W("c17", scale=8.0)],
    "C18": [W("c18", scale=20.0), W("c18", "asan", scale=5.0)],
    "C19": [W("c19")],
    "C20": [W("c20", scale=12.0)],
    "C21": [W("c21", scale=4.0), W("c21", "miri"), {"kind": "attacks", "confs": CONFS[:1], "only": MARKERS}],
    "C22": [{"kind": "attacks", "confs": CONFS}],
    "C23": [W("c23", scale=8.0)],
}


def T(*sts):
    """Stages repeated with further seeds, sharing about eleven minutes"""
    return [dict(s, budget=s.get("share", 1.0) * 660, timeout=1500, cpu=1200, cpu_one=200) for s in sts]


THOROUGH = {
    **{p: T(dict(QUICK[p][0])) for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C10", "C16", "C17", "C20", "C23")},
    "C09": T(W("c09", scale=10.0, share=.6), W("c09", "asan", scale=1.0, share=.4)),
    "C08": T(W("c08", scale=4.0, share=.4), W("c08", "asan", features="nightly,fuzz", scale=0.3, share=.3), W("c08", "miri", scale=0.5, share=.3)),
    "C11": T(W("c11", scale=4.0, share=.2), W("c11", "tsan", scale=4.0, share=.3), W("c11", "miri", scale=0.5, miriflags=WEAK, share=.5)),
    "C12": T(W("c12", scale=8.0, share=.4), W("c12", "asan", features="nightly,fuzz", scale=2.0, share=.4), W("c12", "miri", scale=0.1, share=.2)),
    "C13": T(W("c13", scale=4.0, share=.2), W("c13", "asan", features="nightly,fuzz", scale=2.0, share=.4), W("c13", "miri-release", scale=0.3, miriflags=NOLEAK, share=.4)),
    "C14": T(W("c14", scale=4.0, share=.2), W("c14", "asan", scale=2.0, share=.4), W("c14", "miri-release", scale=0.5, miriflags=NOLEAK, share=.4)),
    "C15": T(W("c15", "asan", scale=2.0, share=.15), W("c15", "miri", features="", miriflags=REUSE, share=.2), W("c15", "miri-release", features="nightly", miriflags=REUSE, share=.2),
               W("c15", "miri", name="c15-miri-32bit", target="i686-unknown-linux-gnu", miriflags=REUSE, share=.1),
               W("c15", "miri", name="c15-miri-bigendian", target="s390x-unknown-linux-gnu", scale=0.5, share=.05))
    + T(W("c15", "miri", name="c15-miri-tree-borrows", miriflags="-Zmiri-tree-borrows " + REUSE, share=.15), W("c12", "miri", name="c12-miri", scale=0.1, share=.1), W("c13", "miri", name="c13-miri", scale=0.1, miriflags=NOLEAK, share=.05)),
    "C18": T(W("c18", scale=40.0, share=.4), W("c18", "asan", scale=20.0, share=.4), W("c18", "miri", scale=0.2, share=.2)),
    "C19": T(W("c19", share=.01), W("c19", "miri", scale=0.1, share=.3)),
    "C21": T(W("c21", scale=20.0, share=.2), W("c21", "tsan", scale=4.0, share=.2), W("c21", "miri", share=.6)) + [QUICK["C21"][2]],
    "C22": [{"kind": "attacks", "confs": CONFS, "seeds": 3}],
}


def stages_for(prop, tier):
    return (THOROUGH if tier == "thorough" else QUICK)[prop]


HIST = ("A case is one seeded random history of operations on one typed configuration (index type, slice type, feature parameter, M), "
        "with every monitor of this property evaluated during it; histories are told apart by a hash of all operations and results. ")
BIG = "Non-trivial: some tree of the history held more than 2*M entries, i.e. its root was split."
SHAPES = " For histories over other value shapes: more than eight insertions and a comparison of everything."
RULES = {
    "C01": HIST + BIG + SHAPES, "C02": HIST + BIG, "C03": HIST + BIG, "C04": HIST + BIG, "C05": HIST + BIG,
    "C06": "A case is a tree with all its entries looked up with and without hints, or a batch of random paths stored in BoundedCursors of 15 lengths. "
           "Non-trivial: the tree outgrew its root, or paths longer than some of the lengths were stored.",
    "C07": HIST + BIG + SHAPES,
    "C08": HIST + "Non-trivial: a borrow was held while operations were attempted, references were used around the tree's destruction, or user code acted inside callbacks of a query.",
    "C09": HIST + BIG + SHAPES, "C10": HIST + BIG,
    "C11": "A case is one multi-threaded scenario (program drawn from a seed, jitter at callbacks); executions are told apart by the order in which the "
           "threads' operations interleaved. Non-trivial: the threads were switched between more often than once per thread.",
    "C12": HIST + BIG + SHAPES,
    "C13": "A case is one history in which panics are injected at random callback numbers and caught, followed by use of every tree. "
           "Non-trivial: at least two injected panics really fired inside the crate.",
    "C14": "A case is one history with lying trait implementations, told apart by a hash of operations and outcomes. "
           "Non-trivial: more than two lies or re-entrant calls were served, or sizes overflowed the index type, and more entries than one root holds were inserted.",
    "C15": "A case is one lawful history executed under Miri or AddressSanitizer, told apart by a hash of its operations. Non-trivial: the root was split, or borrows were held across other calls.",
    "C16": HIST + BIG + " For constructions: every M in 0..=255.",
    "C17": HIST + BIG,
    "C18": "A case is one tree serialised and deserialised in every configuration, in JSON and in a length-prefixed binary format, plus six malformed and several randomly damaged documents derived from it. Non-trivial: more than 2*M entries.",
    "C19": "A case checks one range type for all ranges over a small domain, against explicit sets. Non-trivial: all.",
    "C20": HIST + BIG + SHAPES,
    "C21": "A case moves or shares one crate object with thread-affine content between threads and destroys it there, one row of the marker table, or one client program. "
           "Non-trivial: more than four values inserted; a marker row evaluated; a program rejected, or accepted and run under Miri.",
    "C22": "A case is one client program without `unsafe`, offered to the compiler in one configuration. Non-trivial: rejected for a reason of lifetimes, borrows or bounds, or accepted and run to its end under Miri.",
    "C23": "A case is one command sequence decoded from random bytes and executed by the shipped runner, or one history of the mock next to the model. Non-trivial: more than 2*M accepted inserts; more than five entries in the mock.",
}
ASSUMPTIONS = {
    "C04": ["the constant per level (7*(2M+2) index operations for reads, 16*(2M+2) for insertions) is about 2.3 times the worst seen on the repaired tree"],
    "C06": ["\"wide\" means a dozen subtrees or more"],
    "C11": ["schedules are those that the OS, the injected jitter and Miri's scheduler produced"],
    "C13": ["leaks are allowed after a panic"],
    "C14": ["answers are not judged, only memory behaviour (AddressSanitizer, std's unsafe-precondition checks, Miri, value ledger)"],
    "C15": ["Miri's Stacked Borrows model is taken as the definition of an aliasing violation"],
    "C22": ["the attack programs are a finite corpus"],
}
# a check that observed fewer distinct non-trivial cases than this did not do its work
FLOORS = {"C01": 2000, "C02": 2000, "C03": 2000, "C04": 500, "C05": 2000, "C06": 500, "C07": 2000, "C08": 1000, "C09": 2000, "C10": 1000,
          "C11": 300, "C12": 2000, "C13": 2000, "C14": 2000, "C15": 500, "C16": 2000, "C17": 2000, "C18": 500, "C19": 100, "C20": 1000,
          "C21": 200, "C22": 150, "C23": 2000}
LEVELS = {"C13": "fault_enumeration", "C20": "exploration"}
CUSTOM = {"attacks": attacks.run}
