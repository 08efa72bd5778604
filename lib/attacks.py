"""C22 (and the marker part of C21): client programs without `unsafe` that try to get a reference, a
borrowed value or a thread out of what the types promise.

Each program in /verif/attacks/src/bin is offered to the compiler against /repo's current tree, in the stable
configuration and with the `nightly` feature. A program the compiler accepts is run under Miri; undefined
behaviour in it is a violation, because safe client code must not reach any. A program the compiler rejects for
a reason of lifetimes, borrows or bounds is the expected observation. Programs marked `accept` are controls: they
must compile and run clean, so that a crate which rejects everything is not mistaken for a sound one."""
import json, os, re
from concurrent.futures import ThreadPoolExecutor

# errors of lifetimes, borrows, moves and bounds: the ways in which the type system says no
OF_TYPES = {"E0119", "E0199", "E0200", "E0271", "E0275", "E0277", "E0282", "E0283", "E0308", "E0309", "E0310", "E0311", "E0367", "E0373", "E0381", "E0382",
            "E0384", "E0478", "E0491", "E0495", "E0499", "E0501", "E0502", "E0503", "E0505", "E0506", "E0507",
            "E0515", "E0521", "E0594", "E0596", "E0597", "E0599", "E0616", "E0603", "E0621", "E0623", "E0624", "E0700", "E0712", "E0713",
            "E0716", "E0133", "E0117", "E0321", "E0322", "E0404", "E0451"}
CODELESS = re.compile(r"lifetime may not live long enough|implementation of .* is not general enough|borrowed data escapes|higher-ranked|does not live long enough")


def expectation(path):
    line = open(path).readline()
    m = re.match(r"//! (reject|accept): (.*)", line)
    return (m.group(1), m.group(2).strip())


def run(check, st):
    import run as R
    root = os.path.join(R.VERIF, "attacks")
    only = st.get("only")
    progs = sorted(p[:-3] for p in os.listdir(os.path.join(root, "src/bin")) if p.endswith(".rs"))
    if only:
        progs = [p for p in progs if re.match(only, p)]
    exp = {p: expectation(os.path.join(root, "src/bin", p + ".rs")) for p in progs}
    cov = check.extra.setdefault("programs", {})
    total_rej = 0
    for conf, tool, feat in st["confs"]:
        env = R.base_env()
        td = os.path.join(root, "target", conf)
        lib = ["cargo", tool, "check", "--offline", "--target-dir", td, "--lib"] + feat
        rc, so, se, to = R.run_proc(lib, env, 600, cwd=root)
        if rc != 0:
            raise R.Inconclusive("attacks: the crate does not build (%s):\n%s" % (conf, se[-2000:]))
        cmd = ["cargo", tool, "check", "--offline", "--target-dir", td, "--keep-going", "--message-format=json"] + feat
        for p in progs:
            cmd += ["--bin", p]
        rc, so, se, to = R.run_proc(cmd, env, 700, cwd=root)
        errors, built = {}, set()
        for line in so.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("reason") == "compiler-artifact" and "bin" in m["target"]["kind"]:
                built.add(m["target"]["name"])
            if m.get("reason") != "compiler-message" or "bin" not in m["target"]["kind"]:
                continue
            d = m["message"]
            if d["level"] == "error" and not d["message"].startswith("aborting due to"):
                errors.setdefault(m["target"]["name"], []).append(((d.get("code") or {}).get("code"), d["message"]))
        accepted, rejected, odd = [], {}, {}
        for p in progs:
            if p in built and p not in errors:
                accepted.append(p)
            elif p in errors:
                bad = [e for e in errors[p] if not (e[0] in OF_TYPES or (e[0] is None and CODELESS.search(e[1])))]
                if bad:
                    odd[p] = bad[0]
                else:
                    rejected[p] = errors[p][0]
            else:
                odd[p] = (None, "neither built nor rejected")
        for p, e in odd.items():
            check.inconclusive.append("attacks %s %s: %s %s" % (conf, p, e[0], e[1]))
        for p in progs:
            if exp[p][0] == "accept" and p in rejected:
                check.inconclusive.append("attacks %s: control %s is rejected: %s" % (conf, p, rejected[p]))

        def interpret(p, seed=None):
            c = ["cargo", "+nightly", "miri", "run", "--offline", "--target-dir", os.path.join(root, "target", "miri-" + conf), "--bin", p] + feat
            e = dict(env)
            # a mere leak is not what these programs look for; it's the subject of C13
            e["MIRIFLAGS"] = "-Zmiri-ignore-leaks -Zmiri-preemption-rate=0.1 -Zmiri-seed=%d" % (seed or check.seed)
            return p, R.run_proc(c, e, 600, cpu=300, cwd=root)

        res = []
        if accepted:
            res.append(interpret(accepted[0]))  # builds the dependencies once
            with ThreadPoolExecutor(max_workers=8) as ex:
                res += list(ex.map(interpret, accepted[1:]))
                for extra in range(1, st.get("seeds", 1)):
                    res += list(ex.map(lambda p: interpret(p, check.seed * 100 + extra), accepted))
        clean = []
        for p, (rc, so, se, to) in res:
            c = R.classify(rc, se) if not to else "TIMEOUT"
            if c and (c.startswith("miri") or c.startswith("killed by")):
                check.violation("attacks-" + conf, "client program %s without unsafe code (%s) is accepted and has undefined behaviour: %s" % (p, exp[p][1], c),
                                config=p, history=0, cmd=[], log=[l for l in so.splitlines()][-10:], stderr=R.clip(se))
            elif c is None or (exp[p][0] == "reject" and "panicked at" in se and rc == 101):
                clean += [p] * (p not in clean)
            elif exp[p][0] == "accept" and "panicked at" in se:
                check.inconclusive.append("attacks %s: control %s panics: %s" % (conf, p, R.clip(se)[-400:]))
            else:
                check.inconclusive.append("attacks %s: %s: %s" % (conf, p, c))
        cov[conf] = {"rejected": len(rejected), "accepted_and_clean_under_miri": clean,
                     "errors": {c: sum(1 for e in rejected.values() if (e[0] or "lifetime") == c) for c in {(e[0] or "lifetime") for e in rejected.values()}}}
        total_rej += len(rejected)
        check.extra["evaluations"] = check.extra.get("evaluations", 0) + len(progs)
        check.extra.setdefault("distinct_nontrivial", 0)
        check.extra["distinct_nontrivial"] += len(rejected) + len(clean)
        check.extra.setdefault("samples", [])
        for p in list(rejected)[:3]:
            check.extra["samples"].append({"program": p, "configuration": conf, "why": exp[p][1], "compiler": "%s %s" % rejected[p]})
