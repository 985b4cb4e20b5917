"""check.py PROPERTY: decides one property on /repo's current tree (see DESIGN.md)."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "drv"))
from verify import Unit, build_vx, sh  # noqa: E402
from units import UNITS, PROPS, ASSUMED  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")


def cargo_env(target):
    e = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    e.pop("RUSTFLAGS", None)
    return e


class Harness:
    """Runs the compiled code of /repo against the oracle, to find and replay failing inputs."""

    def __init__(self, work, cache):
        self.work, self.cache = work, cache
        self.exe = self.cli = None
        self.note = ""
        self.tmp = os.path.join(work, "abi")
        os.makedirs(self.tmp, exist_ok=True)

    def build(self, with_cli):
        src = os.path.join(self.work, "harness")
        shutil.copytree(os.path.join(VERIF, "harness"), src, ignore=shutil.ignore_patterns("target"))
        t = open(os.path.join(src, "Cargo.toml")).read().replace('"/repo/ethabi"', '"%s/ethabi"' % REPO)
        open(os.path.join(src, "Cargo.toml"), "w").write(t)
        for lock in ("committed", "repo", "none"):
            lf = os.path.join(src, "Cargo.lock")
            if lock == "repo" and os.path.exists(os.path.join(REPO, "Cargo.lock")):
                shutil.copy(os.path.join(REPO, "Cargo.lock"), lf)
            if lock == "none" and os.path.exists(lf):
                os.remove(lf)
            rc, o, e = sh(["cargo", "build", "--release", "--offline", "--quiet"], cwd=src, env=cargo_env(os.path.join(self.cache, "harness")), timeout=400)
            if rc == 0:
                self.exe = os.path.join(self.cache, "harness", "release", "harness")
                break
            self.note = "the replay harness does not build: " + e[-1500:]
        if with_cli:
            # built from a copy, so that nothing is written below /repo
            ws = os.path.join(self.work, "ws")
            shutil.copytree(REPO, ws, ignore=shutil.ignore_patterns("target", ".git"), symlinks=True)
            rc, o, e = sh(["cargo", "build", "--offline", "--quiet", "-p", "ethabi-cli"], cwd=ws, env=cargo_env(os.path.join(self.cache, "cli")), timeout=400)
            exe = os.path.join(self.cache, "cli", "debug", "ethabi")
            if rc == 0 and os.path.exists(exe):
                self.cli = exe
            else:
                self.note += " the command line tool does not build: " + e[-1500:]

    def env(self):
        e = dict(os.environ, HARNESS_TMP=self.tmp)
        if self.cli:
            e["ETHABI_CLI"] = self.cli
        return e

    def run(self, prop, seed, lo, hi, secs):
        """returns the summary of the run, with 'fail': None or {idx, what}"""
        if not self.exe or (prop == "C16" and not self.cli):
            return None
        rc, o, e = sh([self.exe, "run", prop, str(seed), str(lo), str(hi), str(secs), "8"], timeout=secs + 60, env=self.env())
        try:
            return json.loads(o.strip().split("\n")[-1])
        except ValueError:
            pass
        m = re.search(r"FAIL (\d+) (.*)", e)
        if m:
            return {"fail": {"idx": int(m.group(1)), "what": m.group(2)}, "evaluations": 0}
        # the process died: find the case
        rc, o, e = sh([self.exe, "run", prop, str(seed), str(lo), str(hi), str(secs * 4), "1"], timeout=secs * 4 + 60, env=self.env())
        m = re.findall(r"AT (\d+)", e)
        if rc < 0 and m:
            return {"fail": {"idx": int(m[-1]), "what": "the process is killed by signal %d" % -rc}, "evaluations": 0}
        if m and not o.strip():
            return {"fail": {"idx": int(m[-1]), "what": "the process ends, code %d" % rc}, "evaluations": 0}
        return None


def verify_unit(name, work, vx, out, tier):
    u = UNITS[name]
    no_contract = []
    best = None
    for attempt in range(4):
        kw = dict(subst=u.get("subst"), stubs=u.get("stubs", ()), vars=u.get("vars"), strict=u.get("strict", False), threads=u.get("threads", 4), rlimit=u.get("rlimit", 40))
        w = os.path.join(work, "%s.%d" % (name, attempt))
        un = Unit(name, u["contracts"], u["specs"], w, vx, REPO, no_contract, **kw)
        r = un.run()
        r["dropped_contracts"] = list(no_contract)
        if r["status"] == "ok":
            v = un.vacuity()
            r["vacuity"] = v
            if v is not None:
                r["status"], r["limits"] = "limit", [v]
            miss = [k for k in u["required"] if k not in [f["key"] for f in r["functions"]]]
            if miss:
                r["status"], r["limits"] = "limit", ["no function " + ", ".join(miss)]
            best = r
            break
        if best is None or best["status"] == "limit":
            best = r
        # helpers may have been rewritten: inline them into the functions the property is stated on
        text = "".join(open(os.path.join(VERIF, "contracts", c)).read() for c in u["contracts"])
        for k, v in u.get("vars", {}).items():
            text = text.replace("%" + k + "%", v)
        keys = set(re.findall(r"^\[fn ([^\]]+)\]", text, re.M))
        blame = set()
        for f in r["failures"]:
            blame.add(f["function"])
        for l in r["limits"]:
            blame |= {k for k in keys if re.search(r"\b%s\b" % re.escape(k), l)}
        blame = (blame & keys) - set(u["required"]) - set(no_contract)
        if not blame:
            break
        no_contract += sorted(blame)
    out[name] = best


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[prop]
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "work"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cache = os.path.join(VERIF, "target")
    work = tempfile.mkdtemp(prefix=prop + ".", dir=os.path.join(VERIF, "work"))
    replays = os.path.join(VERIF, "work", "replay")
    os.makedirs(replays, exist_ok=True)
    rc = 3
    try:
        rc = decide(prop, P, tier, seed, t0, cache, work, replays)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def decide(prop, P, tier, seed, t0, cache, work, replays):
    notes = []
    H = Harness(work, cache)
    results = {}
    with cf.ThreadPoolExecutor(8) as ex:
        hb = ex.submit(H.build, P.get("cli", False))
        try:
            vx = build_vx(os.path.join(cache, "vx"))
        except RuntimeError as e:
            vx = None
            notes.append(str(e)[-800:])
        jobs = []
        if vx:
            jobs = [ex.submit(verify_unit, u, work, vx, results, tier) for u in P["units"]]
        for j in jobs:
            try:
                j.result()
            except Exception as e:  # noqa: BLE001 (a defect of the machinery is not a verdict on the code)
                notes.append("machinery: %r" % e)
        hb.result()
    n, secs = P["cases"][tier]
    h = H.run(prop, seed, 0, n, secs)
    if h is None:
        notes.append(H.note or "the replay harness gave no answer")
    failed = [u for u in P["units"] if u in results and results[u]["status"] == "failed"]
    limits = [u for u in P["units"] if u not in results or results[u]["status"] == "limit"]
    verdict, replay = 0, None
    evals = [h] if h else []
    if h and h.get("fail"):
        verdict = 1
    elif failed:
        # search longer for an input behind the failed obligation
        if h:
            h2 = H.run(prop, seed + 1, 0, n * 20, P["search"])
            evals.append(h2 or {})
            if h2 and h2.get("fail"):
                h, verdict, seed = h2, 1, seed + 1
        if verdict == 0:
            # a unit shared by two properties: the obligations of the functions this property is about
            fns = P.get("fns")
            mine = lambda u: not fns or any(x["function"].split("::")[-1] in fns or "::" not in x["function"] for x in results[u]["failures"])
            own = [u for u in failed if u in P["own"] and mine(u)]
            others = [u for u in failed if u not in own]
            explained = []
            for u in others:
                sib = P.get("sibling") or UNITS[u]["property"]
                hs = H.run(sib, seed, 0, PROPS[sib]["cases"]["quick"][0], P["search"])
                if hs and hs.get("fail"):
                    explained.append(u)
                    notes.append("the failed obligation of unit %s is a violation of %s (case %d), found by its own check; here the property was decided by the bounded check" % (u, sib, hs["fail"]["idx"]))
            if own or len(explained) < len(others):
                verdict = 2
    if verdict == 1:
        replay = os.path.join(replays, "%s.txt" % prop)
        f = h["fail"]
        text = "property %s is violated: case %d of seed %d\n%s\n\nreplay: cargo run in /verif/harness: harness replay %s %d %d\n" % (prop, f["idx"], seed, f["what"], prop, seed, f["idx"])
        for u in failed:
            for x in results[u]["failures"][:8]:
                text += "\nfailed obligation in %s (unit %s): %s\n%s\n" % (x["function"], u, x["obligation"], x["text"])
        open(replay, "w").write(text)
        print("failing input: " + f["what"][:1200])
        for u in failed:
            for x in results[u]["failures"][:4]:
                print("failed obligation: %s in %s" % (x["obligation"], x["function"]))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
    elif verdict == 2:
        replay = os.path.join(replays, "%s.txt" % prop)
        text = "property %s: obligations of the current source are not discharged; no failing input was found\n" % prop
        for u in failed:
            for x in results[u]["failures"][:12]:
                text += "\nfailed obligation in %s (unit %s): %s\n%s\n" % (x["function"], u, x["obligation"], x["text"])
        open(replay, "w").write(text)
        for u in failed:
            for x in results[u]["failures"][:4]:
                print("failed obligation: %s in %s" % (x["obligation"], x["function"]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay))
    for l in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, l))
    for u in limits:
        r = results.get(u)
        notes.append("unit %s was not decided by the verifier on this tree (%s); the bounded check stands in" % (u, (r["limits"][0][:300] if r and r["limits"] else "no result")))
    obligations = sum(r.get("verified", 0) + max(r.get("errors", 0), len(r["failures"])) for r in results.values())
    discharged = sum(r.get("verified", 0) for r in results.values() if r["status"] != "limit")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": P["level"],
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": "python3 drv/check.py %s  (verus --multiple-errors 30 --rlimit 40 on the text vx extracts from %s)" % (prop, REPO),
            "trusted_base": ["Verus 0.2026.09.13.671956e with Z3 4.16.0", "vx: the extraction of /repo's functions to Verus text (DESIGN.md, section 2)", "spec/prelude.rs: contracts of the standard library and of dependencies", "rustc"],
            "units": {u: {"status": r["status"], "verified": r.get("verified", 0), "failed": len(r["failures"]),
                          "functions_under_contract": [{"function": f["key"], "file": f["file"], "line": f["line"], "inlined": f["inlined"], "loops": f["loops"], "source": f["source_fnv"]} for f in r.get("functions", [])],
                          "invariant_candidates": r.get("candidates"), "invariants_dropped": len(r.get("dropped", [])), "contracts_set_aside": r.get("dropped_contracts", []),
                          "smt_ms": smt(r), "verus_runs": r.get("verus_runs"), "wall_s": r.get("wall_s"), "vacuity_guard": "passed" if r.get("vacuity", 0) is None else "not run"} for u, r in results.items()},
            "proved": not failed and not limits,
            "bounded": P.get("bounded", []),
            "replay_search": {"evaluations": sum((x or {}).get("evaluations", 0) for x in evals), "distinct_nontrivial": max([(x or {}).get("distinct_nontrivial", 0) for x in evals] or [0]),
                              "rule": "inputs generated from (seed, index); non-trivial: at least one value, type or character; distinct by printed input", "samples": [s[:300] for s in ((h or {}).get("samples") or [])[:3]]},
            "notes": notes,
        },
        "assumptions": sum([ASSUMED[a] for a in P["assumed"]], []),
        "wall_s": round(time.time() - t0, 2), "violations": 1 if verdict else 0,
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d obligations, %d discharged, units %s; %d cases replayed on the compiled code; %.1f s" % (
        prop, "VIOLATED" if verdict else "holds", obligations, discharged, {u: r["status"] for u, r in results.items()}, ev["coverage"]["replay_search"]["evaluations"], time.time() - t0))
    for x in notes:
        print("note: " + x[:600])
    return 1 if verdict else 0


def smt(r):
    t = r.get("times") or {}
    try:
        return t["smt"]["total"]
    except (KeyError, TypeError):
        return None


def known_findings(prop):
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\w+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out


if __name__ == "__main__":
    main()
