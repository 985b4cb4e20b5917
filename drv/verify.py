"""Extracts the functions of a unit from /repo, assembles the Verus source and discharges its obligations."""
import json, os, re, subprocess, sys, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VERUS = os.environ.get("VERUS", "verus")


def sh(cmd, timeout=600, cwd=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, env=env)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf-8", "replace"), "timeout"


def build_vx(target):
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
    rc, o, e = sh(["cargo", "build", "--release", "--offline", "--quiet"], cwd=os.path.join(VERIF, "vx"), env=env, timeout=600)
    exe = os.path.join(target, "release", "vx")
    if rc != 0 or not os.path.exists(exe):
        raise RuntimeError("cannot build the extractor:\n" + e)
    return exe


def norm_type(t):
    t = re.sub(r"'[a-z_]+ ?,? ?", "", t)
    t = re.sub(r"(?:[a-z_0-9]+::)+", "", t)
    t = t.replace("<, ", "<").replace("<>", "")
    return t


def stub_text(cfile, keys):
    """The contracts of functions proved in another unit, assumed at their call sites here."""
    out, text = [], open(os.path.join(VERIF, "contracts", cfile)).read()
    for k in keys:
        m = re.search(r"^\[fn %s\]\n(.*?)(?=^\[|\Z)" % re.escape(k), text, re.S | re.M)
        body = m.group(1)
        secs = re.split(r"^(\w+):\n", body, flags=re.M)
        keep = {secs[i]: secs[i + 1] for i in range(1, len(secs), 2) if secs[i] in ("spec", "name", "ret", "generics", "inputs", "where", "file", "as")}
        spec = re.sub(r"^\s*decreases .*\n", "", keep.get("spec", ""), flags=re.M)
        out.append("[stub %s]\nattrs:\n  #[verifier::external_body]\n" % k)
        out.append("spec:\n" + spec)
        for n, t in keep.items():
            if n != "spec":
                out.append(n + ":\n" + t)
        out.append("\n")
    return "".join(out)


class Unit:
    def __init__(self, name, contracts, specs, work, vx, repo="/repo", no_contract=(), threads=4, rlimit=40, subst=None, stubs=(), vars=None, strict=False):
        self.strict = strict
        self.vars = vars or {}
        self.stubs = list(stubs)
        self.subst = subst or {}
        self.name, self.contracts, self.specs = name, contracts, specs
        self.work, self.vx, self.repo = work, vx, repo
        self.no_contract = list(no_contract)
        self.threads, self.rlimit = threads, rlimit
        os.makedirs(work, exist_ok=True)
        self.log = []
        self.verus_runs = 0
        self.smt_ms = 0

    def spec_text(self):
        return "".join(open(os.path.join(VERIF, "spec", s)).read() + "\n" for s in self.specs)

    def extract(self, drop=(), probe=False, types=None):
        cf = os.path.join(self.work, self.name + ".vx")
        with open(cf, "w") as f:
            for c in self.contracts:
                text = open(os.path.join(VERIF, "contracts", c)).read() + "\n"
                for k, v in self.vars.items():
                    text = text.replace("%" + k + "%", v)
                f.write(text)
            for c, keys, *vs in self.stubs:
                text = stub_text(c, keys)
                for k, v in (vs[0] if vs else {}).items():
                    text = text.replace("%" + k + "%", v)
                f.write(text)
        rs = os.path.join(self.work, self.name + ".reserved")
        spec = self.spec_text()
        with open(rs, "w") as f:
            f.write(" ".join(sorted(set(re.findall(r"(?:spec|proof) fn (\w+)", spec)))))
        gen, meta = os.path.join(self.work, self.name + ".gen.rs"), os.path.join(self.work, self.name + ".meta.json")
        cmd = [self.vx, self.repo, cf, gen, meta, "--reserved", rs]
        if drop:
            cmd += ["--drop", ",".join(map(str, sorted(drop)))]
        if probe:
            cmd += ["--probe"]
        if types is not None:
            tf = os.path.join(self.work, self.name + ".types.json")
            json.dump(types, open(tf, "w"))
            cmd += ["--types", tf]
        if self.no_contract:
            cmd += ["--no-contract", ",".join(self.no_contract)]
        rc, o, e = sh(cmd, env=dict(os.environ, VX_STRICT="1") if self.strict else None)
        if rc != 0:
            return None, {"errors": ["extractor: " + e[-2000:]]}
        return open(gen).read(), json.load(open(meta))

    def assemble(self, gen):
        head = self.spec_text() + "\npub mod types { use vstd::prelude::*; use vstd::string::*; use super::*; verus! {\n"
        for a, b in self.subst.items():
            gen = re.sub(r"\b%s\b" % a, b, gen)
        gen = re.sub(r"/\*@code\*/", "} } pub use types::*; pub mod code { use vstd::prelude::*; use vstd::string::*; use super::*; verus! {", gen, count=1)
        text = head + gen + "\n} } use code::*;\nfn main() {}\n"
        path = os.path.join(self.work, self.name + ".rs")
        open(path, "w").write(text)
        return path, text.split("\n"), head.count("\n")

    def verus(self, path, verify=True, extra=()):
        cmd = [VERUS, path, "--multiple-errors", "30", "--triggers-mode", "silent", "--num-threads", str(self.threads), "--output-json", "--time-expanded", "--rlimit", str(self.rlimit)]
        cmd += list(extra)
        if not verify:
            cmd += ["--no-verify"]
        cmd += ["--", "--error-format=json"]
        self.verus_runs += 1
        t0 = time.time()
        rc, o, e = sh(cmd, timeout=60, cwd=self.work)
        self.log.append("verus %s rc=%d %.1fs" % (self.name, rc, time.time() - t0))
        diags = []
        for l in e.split("\n"):
            l = l.strip()
            if l.startswith("{"):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d.get("level") == "error" and not d["message"].startswith("aborting due"):
                    diags.append(d)
        res = {}
        try:
            res = json.loads(o)
        except ValueError:
            pass
        if not diags and (rc not in (0,) or not res.get("verification-results", {}).get("success")) and verify:
            diags.append({"message": "verus gave no result: rc=%d %s %s" % (rc, o[-600:], e[-600:]), "spans": [], "code": {"code": "TOOL"}, "rendered": e[-3000:]})
        return diags, res

    @staticmethod
    def primary(d):
        sp = [s for s in d.get("spans", []) if s.get("is_primary")]
        return sp or d.get("spans", [])

    def run(self):
        t0 = time.time()
        out = {"unit": self.name, "status": "ok", "failures": [], "limits": [], "functions": []}
        try:
            self._run(out)
        finally:
            out["wall_s"] = round(time.time() - t0, 2)
            out["log"] = self.log
            out["verus_runs"] = self.verus_runs
        return out

    def _run(self, out):
        gen, meta = self.extract(probe=True)
        out["meta"] = meta
        if meta["errors"]:
            out["status"] = "limit"
            out["limits"] = meta["errors"]
            return
        types = {}
        path, lines, off = self.assemble(gen)
        diags, _ = self.verus(path, verify=False)
        bad = []
        for d in diags:
            ln = [s["line_start"] for s in self.primary(d)]
            m = re.match(r"\s*/\*P(\d+)\*/", lines[ln[0] - 1]) if ln else None
            if m:
                t = re.search(r"required for `(.*?)` to implement `(?:\w+::)*VxProbe`", d.get("rendered") or "") \
                    or re.search(r"the trait bound `(.*?): (?:\w+::)*VxProbe` is not satisfied", d["message"])
                if t:
                    types[meta["probes"][m.group(1)]] = norm_type(t.group(1))
            else:
                bad.append(d)
        if bad:
            out["status"] = "limit"
            out["limits"] = ["not accepted by the verifier's front end: " + self.show(d, lines) for d in bad[:6]]
            return
        drop = set()
        for it in range(40):
            gen, meta = self.extract(drop=drop, types=types)
            out["meta"] = meta
            if meta["errors"]:
                out["status"], out["limits"] = "limit", meta["errors"]
                return
            path, lines, off = self.assemble(gen)
            diags, res = self.verus(path)
            new, rest = set(), []
            for d in diags:
                ids = set()
                for s in self.primary(d):
                    for k in range(s["line_start"], s["line_end"] + 1):
                        m = re.match(r"\s*/\*D(\d+)\*/", lines[k - 1]) if k - 1 < len(lines) else None
                        if m:
                            ids.add(int(m.group(1)))
                if ids:
                    new |= ids
                else:
                    rest.append(d)
            if new - drop:
                drop |= new
                continue
            break
        out["candidates"] = len(meta["candidates"])
        out["dropped"] = sorted(drop)
        vr = res.get("verification-results", {})
        out["verified"] = vr.get("verified", 0)
        out["errors"] = vr.get("errors", 0)
        out["times"] = res.get("times-ms", {})
        out["source"] = path
        out["functions"] = meta["functions"]
        out["missing"] = meta["missing"]
        for d in rest:
            msg = d["message"]
            fn = self.fn_of(d, meta, off)
            code = (d.get("code") or {}).get("code") or ""
            if code or not vr.get("errors") or vr.get("encountered-vir-error") or re.search(r"not (yet |currently )?(be )?support|unsupported|not allowed|not implemented", msg.lower()) or "rlimit" in msg.lower() or "Resource limit" in msg or "cannot find" in msg or "must have a decreases" in msg:
                out["limits"].append(self.show(d, lines))
            else:
                out["failures"].append({"function": fn, "obligation": msg, "text": self.show(d, lines)})
        if out["failures"]:
            out["status"] = "failed"
        if out["limits"] and not out["failures"]:
            out["status"] = "limit"

    def vacuity(self):
        """None if false cannot be derived from the specifications and assumed contracts"""
        text = open(os.path.join(self.work, self.name + ".rs")).read()
        if "pub mod code {" not in text:
            return "no code to guard"
        head, code = text.split("pub mod code {", 1)
        names = sorted(set(n.strip() for u in re.findall(r"broadcast use \{?([^;}]*)", code) for n in u.split(",") if n.strip()))
        uses = ["broadcast use {%s};" % ", ".join(names)] if names else []
        guard = head + "pub mod guard { use vstd::prelude::*; use super::*; verus! {\n" + "\n".join(uses) + "\nproof fn vx_guard() { assert(false); }\n} }\nfn main() {}\n"
        path = os.path.join(self.work, self.name + "_guard.rs")
        open(path, "w").write(guard)
        diags, res = self.verus(path, extra=["--verify-only-module", "guard"])
        if any("assertion failed" in d["message"] for d in diags):
            return None
        return "the specifications are contradictory or the guard did not run: " + (diags[0]["message"] if diags else "false was derived")

    def fn_of(self, d, meta, off):
        for s in d.get("spans", []):
            for f in meta["functions"]:
                a, b = f["lines"]
                if off + a <= s["line_start"] <= off + b:
                    return f["key"]
        return "(lemma)"

    def show(self, d, lines):
        r = d.get("rendered") or d["message"]
        return r[:3000]


def main():
    import argparse
    a = argparse.ArgumentParser()
    a.add_argument("unit")
    a.add_argument("--repo", default="/repo")
    a.add_argument("--work", default="/tmp/v/work")
    a.add_argument("--no-contract", default="")
    x = a.parse_args()
    sys.path.insert(0, os.path.join(VERIF, "drv"))
    from units import UNITS
    vx = build_vx(os.path.join(VERIF, "vx", "target"))
    u = UNITS[x.unit]
    r = Unit(x.unit, u["contracts"], u["specs"], x.work, vx, x.repo, [k for k in x.no_contract.split(",") if k], subst=u.get("subst"), stubs=u.get("stubs", ()), vars=u.get("vars"), strict=u.get("strict", False)).run()
    for l in r["log"]:
        print(l)
    for l in r["limits"]:
        print("LIMIT", l)
    for f in r["failures"]:
        print("FAILED", f["function"], "::", f["text"])
    c = r["meta"].get("candidates", {})
    for d in r.get("dropped", []):
        print("dropped", c.get(str(d)))
    print(r["status"], r.get("verified"), "missing", r.get("missing"))


if __name__ == "__main__":
    main()
