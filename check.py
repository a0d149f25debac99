#!/usr/bin/env python3
"""Decides one property of rx509:  check.py PROPERTY [--tier quick|thorough]
                                   check.py PROPERTY --replay FILE

The contracts of /verif/contracts are put on the code of /repo's working tree (extract/),
Verus discharges every obligation, and at the same time search/ runs the real crate against
the same specification to have a failing input at hand.  See DESIGN.md."""
import hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RASN_REPO", "/repo")
T0 = time.time()
VERUS = os.environ.get("VERUS", "verus")

PRINTING = re.compile(r"<Printable>::|<LinePrinter>::|printer::|der_printer::")
DISPLAY = re.compile(r"<VDisplay>::fmt|to_str$")
# functions no user can call: their contracts are means, not ends
INTERNAL = re.compile(r"^der::(reader|parser|calendar)::|__|parse_single$|try_from_id$|^der::oid::get_oid")
# functions whose contract is that of their trait
UNLISTED = [(re.compile(r"<ASNWrapperType>::"), ("C05", "C10", "C12", "C13")), (re.compile(r"UtcTime<derive|UtcTime<Partial"), ("C11",))]
LEVEL = "proof"

BACK_END = "Verus (Z3)"


def log(*a):
    print(*a, flush=True)


def properties():
    out = {}
    with open(os.path.join(HERE, "properties.jsonl")) as f:
        for l in f:
            if l.strip():
                d = json.loads(l)
                out[d["id"]] = d
    return out


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


# ---- building -----------------------------------------------------------------------------
def cargo_env():
    e = dict(os.environ)
    e["RUSTFLAGS"] = "-Awarnings"
    e.pop("CARGO_TARGET_DIR", None)
    return e


def build_extract():
    r = sh(["cargo", "build", "--offline", "--release", "-q"], cwd=os.path.join(HERE, "extract"), env=cargo_env())
    if r.returncode != 0:
        log("cannot build the extractor\n" + r.stderr[-3000:])
        sys.exit(2)
    return os.path.join(HERE, "extract/target/release/extract")


def build_search():
    """Builds the search against the crate in REPO; None if that is not possible."""
    d = os.path.join(HERE, "search")
    # cargo goes by modification times; a source put back with an old one must be seen too
    stamp = os.path.join(d, "target/sources.sha256")
    h = hashlib.sha256()
    for p in list(sources()) + [os.path.join(HERE, "spec/spec.rs")]:
        h.update(p.encode() + b"\0" + open(p, "rb").read())
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != h.hexdigest():
        sh(["cargo", "clean", "--offline", "--release", "-p", "rx509", "-p", "search"], cwd=d, env=cargo_env())
    build = ["cargo", "build", "--offline", "--release", "-q", "--bin", "search"]
    r = sh(build, cwd=d, env=cargo_env())
    if r.returncode != 0 and old == h.hexdigest():
        sh(["cargo", "clean", "--offline", "--release"], cwd=d, env=cargo_env())
        r = sh(build, cwd=d, env=cargo_env())
    if r.returncode != 0:
        return None, r.stderr[-2000:]
    with open(stamp, "w") as f:
        f.write(h.hexdigest())
    for b in ("console", "decoder"):
        r = sh(["cargo", "build", "--offline", "--release", "-q", "--bin", b], cwd=d, env=cargo_env())
        f = os.path.join(d, "target/release", b)
        if r.returncode != 0 and os.path.exists(f):
            os.remove(f)
    return os.path.join(d, "target/release/search"), ""


# ---- literals of the current sources -------------------------------------------------------
def strip_comments(t):
    t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
    return re.sub(r"(?m)//[^\n]*", " ", t)


def sources():
    for d in ("rx509/src", "decoder/src"):
        for r, _, fs in os.walk(os.path.join(REPO, d)):
            for f in sorted(fs):
                if f.endswith(".rs") and "test" not in f:
                    yield os.path.join(r, f)


def literals():
    ints, strs = {}, {}
    for p in sources():
        try:
            t = strip_comments(open(p, errors="replace").read())
        except OSError:
            continue
        for m in re.finditer(r'b?"((?:[^"\\]|\\.)*)"', t):
            s = m.group(1)
            if len(s) > 64:
                continue
            try:
                b = re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda k: chr(int(k.group(1), 16)), s)
                b = b.encode().decode("unicode_escape").encode("latin-1", "ignore")
            except Exception:
                b = s.encode()
            if b:
                strs[b.hex()] = strs.get(b.hex(), 0) + 1
        u = re.sub(r'b?"((?:[^"\\]|\\.)*)"', " ", t)
        for m in re.finditer(r"b?'(\\x[0-9a-fA-F]{2}|\\.|[^'\\])'", u):
            s = m.group(1)
            v = int(s[2:], 16) if s.startswith("\\x") else {"\\n": 10, "\\t": 9, "\\r": 13, "\\0": 0, "\\\\": 92, "\\'": 39}.get(s, ord(s[-1]))
            ints[v] = ints.get(v, 0) + 1
        for m in re.finditer(r"(?<!b)'(\\u\{[0-9a-fA-F_]+\}|[^'\\\n])'", u):
            c = m.group(1)
            c = chr(int(c[3:-1].replace("_", ""), 16)) if c.startswith("\\u") else c
            h = c.encode("utf-8", "ignore").hex()
            strs[h] = strs.get(h, 0) + 1
        for m in re.finditer(r"\[((?:\s*(?:0x[0-9a-fA-F]{1,2}|[0-9]{1,3})(?:u8)?\s*,)+\s*(?:0x[0-9a-fA-F]{1,2}|[0-9]{1,3}|\.\.)(?:u8)?\s*,?\s*)\]", u):
            vs = [int(x.strip().replace("u8", ""), 0) for x in m.group(1).split(",") if x.strip() and x.strip() != ".."] if not re.search(r"(?<![\w])0[0-9]", m.group(1)) else []
            if len(vs) > 1 and max(vs) < 256:
                h = bytes(vs).hex()
                strs[h] = strs.get(h, 0) + 1
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:[ui](?:8|16|32|64|128|size))?(?![\w])", u):
            try:
                v = int(m.group(1).replace("_", ""), 0) if not re.match(r"^0[0-9]", m.group(1)) else int(m.group(1).replace("_", ""))
            except ValueError:
                continue
            ints[v] = ints.get(v, 0) + 1
    return ints, strs


BASELINE = os.path.join(HERE, "search/baseline.json")
LOOPS = os.path.join(HERE, "contracts/loops.json")


def write_dict(path):
    """Literals of the sources; the ones the reviewed tree does not have weigh more."""
    ints, strs = literals()
    base = {"ints": {}, "strs": {}}
    try:
        base = json.load(open(BASELINE))
    except Exception:
        pass
    new = 0
    with open(path, "w") as f:
        for v, n in sorted(ints.items()):
            extra = n > base["ints"].get(str(v), 0)
            new += extra
            if -(1 << 62) < v < (1 << 62):
                f.write(("i %d\n" % v) * (20 if extra else 1) + ("I %d\n" % v if extra else ""))
        for s, n in sorted(strs.items()):
            extra = n > base["strs"].get(s, 0)
            new += extra
            f.write(("s %s\n" % s) * (20 if extra else 1) + ("S %s\n" % s if extra else ""))
    return new


# ---- the search ---------------------------------------------------------------------------
def limits():
    resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Search:
    """Several searches with different seeds, in parallel."""

    def __init__(self, exe, prop, seed, secs, dictfile, tmp, procs, tag):
        self.exe, self.prop, self.secs, self.dictfile, self.tmp = exe, prop, secs, dictfile, tmp
        self.jobs = []
        for k in range(procs):
            out = os.path.join(tmp, "search-%s-%d.json" % (tag, k))
            s = str(seed * 1000 + k + 1)
            p = subprocess.Popen([exe, "run", prop, s, str(secs), dictfile, out], env=dict(os.environ, TMPDIR=tmp), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=limits)
            self.jobs.append((p, out, s))

    def wait(self):
        """-> (merged report, violation or None)"""
        rep = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "by_target": {}, "runs": 0, "accepted": 0}
        bad = None
        end = time.time() + self.secs + 150
        for p, out, s in self.jobs:
            try:
                rc = p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = None
            try:
                j = json.load(open(out))
            except Exception:
                j = {}
            rep["runs"] += 1
            for k in ("evaluations", "distinct_nontrivial", "accepted"):
                rep[k] += j.get(k, 0)
            for t, n in j.get("by_target", {}).items():
                rep["by_target"][t] = rep["by_target"].get(t, 0) + n
            if len(rep["samples"]) < 6:
                rep["samples"] += j.get("samples", [])[:6]
            if "violation" in j and bad is None:
                bad = j["violation"]
            if rc not in (0, 1, None) and bad is None:
                bad = self.died(s, rc)
        return rep, bad

    def died(self, seed, rc):
        """The process itself ended: find the case that ends it."""
        tr = os.path.join(self.tmp, "trace-" + seed)
        env = dict(os.environ, SEARCH_TRACE=tr, TMPDIR=self.tmp)
        try:
            r = subprocess.run([self.exe, "run", self.prop, seed, str(self.secs * 3), self.dictfile, tr + ".json"], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=limits, timeout=self.secs * 3 + 60)
        except subprocess.TimeoutExpired:
            return None
        try:
            j = json.load(open(tr + ".json"))
            if "violation" in j:
                return j["violation"]
        except Exception:
            pass
        if r.returncode in (0, 1):
            return None
        try:
            t = open(tr).read()
            g = dict(l.split(": ", 1) for l in t.splitlines() if ": " in l)
            f = tr + ".case"
            open(f, "w").write(t)
            r = subprocess.run([self.exe, "show", f], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=limits, timeout=60)
            if r.returncode not in (0, 1):
                return {"target": g["target"], "data": g.get("data", ""), "message": "ends the process (stack or memory exhausted), status %d" % r.returncode}
        except Exception:
            pass
        return None


# ---- the verifier -------------------------------------------------------------------------
class Proof:
    """One extraction and one run of the verifier."""

    def __init__(self, extract, tmp, tag, skip=(), drop=(), extra=(), smoke=False, main=False, located=False):
        self.skip, self.drop, self.main, self.located = set(skip), set(drop), main, located
        tmp = os.path.join(tmp, "proof" + tag)
        os.makedirs(tmp, exist_ok=True)
        self.x = os.path.join(tmp, "x.rs")
        self.map = os.path.join(tmp, "x.json")
        self.ok = False  # a verdict was reached
        self.failures, self.front, self.why = [], [], ""
        self.reproved = set()  # functions discharged only with other seeds or resources
        self.results, self.breakdown, self.smt_ms, self.wall = {}, [], 0, 0.0
        self.info = {"functions": [], "not_under_contract": [], "missing": [], "unsupported": [], "notes": [], "inlined": []}
        cmd = [extract, "--repo", REPO, "--contracts", os.path.join(HERE, "contracts"), "--spec", os.path.join(HERE, "spec"), "--out", self.x, "--map", self.map,
               "--types", os.path.join(os.path.dirname(tmp), "types.txt"), "--skip", ",".join(sorted(self.skip)), "--drop", ",".join(sorted(self.drop))]
        if not main:
            cmd += ["--nomain", "1"]
        if located:
            cmd += ["--located", "1"]
        if smoke:
            cmd += ["--smoke", "1"]
        t = time.time()
        try:
            r = sh(cmd, timeout=60)
        except subprocess.TimeoutExpired:
            self.why = "the extraction does not end"
            return
        if r.returncode != 0:
            self.why = "the sources could not be lowered: " + r.stderr[-600:]
            return
        self.info = json.load(open(self.map))
        self.extra = list(extra)
        self.cmd = [VERUS, os.path.basename(self.x), "--triggers-mode", "silent", "--error-format=json", "--output-json", "--time-expanded"] + self.extra
        try:
            r = sh(self.cmd, cwd=tmp, timeout=240)
        except subprocess.TimeoutExpired:
            self.why = "the verifier did not end within 240 s"
            return
        self.wall = time.time() - t
        try:
            o = json.loads(r.stdout)
        except Exception:
            o = {}
        self.results = o.get("verification-results", {})
        for m in o.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            self.breakdown += m.get("function-breakdown", [])
        self.smt_ms = o.get("times-ms", {}).get("smt", {}).get("total", 0)
        errs = []
        for l in r.stderr.splitlines():
            if not l.startswith("{"):
                continue
            try:
                d = json.loads(l)
            except Exception:
                continue
            if d.get("level") == "error" and not d["message"].startswith("aborting due to"):
                errs.append(d)
        verified = "verified" in self.results and not self.results.get("encountered-vir-error") and not any(e.get("code") for e in errs)
        items = [self.locate(e) for e in errs]
        if verified and (errs or self.results.get("success")):
            self.ok = True
            self.failures = items
        else:
            self.front = items
            self.why = "; ".join(i["message"] for i in items[:3]) or ("the verifier ended with status %s: %s" % (r.returncode, r.stderr[-300:]))

    def owner(self, line):
        best = None
        for f in self.info["functions"]:
            if f["start"] <= line <= f["end"] and (best is None or f["end"] - f["start"] <= best["end"] - best["start"]):
                best = f
        return best

    def locate(self, e):
        spans = [s for s in e.get("spans", []) if os.path.basename(s["file_name"]) == os.path.basename(self.x)]
        exits = [s for s in spans if re.search(r"at (the end of the function body|this exit|this loop exit|this call-site)", s.get("label") or "")]
        prim = exits or [s for s in spans if s.get("is_primary")] or spans
        f = self.owner(prim[0]["line_start"]) if prim else None
        clause = ""
        for s in spans:
            if "failed" in (s.get("label") or ""):
                clause = " ".join(t["text"].strip() for t in s.get("text", []))
        if not clause and prim:
            clause = " ".join(t["text"].strip() for t in prim[0].get("text", []))
        callee = None
        if e["message"].startswith("precondition"):
            q = [s for s in spans if "failed" in (s.get("label") or "")]
            callee = self.owner(q[0]["line_start"]) if q else None
        return {"message": e["message"], "code": (e.get("code") or {}).get("code") if e.get("code") else None, "function": f["key"] if f else None, "props": f["props"] if f else [],
                "file": f.get("file") if f else None, "line": f.get("line") if f else None, "clause": clause[:300], "callee": callee["key"] if callee else None,
                "lines": [s["line_start"] for s in spans], "rendered": e.get("rendered", "")[:4000]}

    def lost(self):
        return [f for f in self.info["functions"] if f["lost"] or f["skipped"]]

    def reshaped(self):
        """Functions whose loops are not those their annotations (invariants, measures,
        unrolling) were written for."""
        want = json.load(open(LOOPS))
        return {f["key"] for f in self.info["functions"] if f["contracted"] and f["loops"] != want.get(f["key"], [])}


def is_safety(f):
    m = f["message"]
    if re.search(r"overflow|underflow|division by zero|decreases|terminat|bit shift|out of bounds|rlimit|Resource limit", m):
        return True
    if m.startswith("precondition"):
        return f["callee"] is None or f["callee"].startswith("@")
    return False


def is_functional(f):
    return not is_safety(f) or bool(re.search(r"rlimit|Resource limit", f["message"])) or f["message"].startswith("precondition")


def owners(f):
    """The properties a failed obligation decides."""
    k, props = f["function"] or "", set(f["props"])
    if k == "decoder::main":
        return {"C22"}
    if not props:
        props = {p for rx, ps in UNLISTED for p in ps if rx.search(k)}
    out = set()
    printing = bool(PRINTING.search(k))
    if is_safety(f):
        if printing:
            out.add("C18")
        elif DISPLAY.search(k):
            out |= {"C20", "C18"}
        elif not k.startswith("@"):
            out.add("C01")
    if is_functional(f):
        fn = props - {"C01"}
        if fn:
            out |= fn
        elif printing:
            out.add("C18")
        elif props:
            out |= props
    if f["message"].find("rlimit") >= 0:
        out |= props
    return out


def located_owned(extract, tmp, p, rest):
    """Failures that come from where octets lie: in the located reading of the code, octet
    strings are equal if they are the same octets of the input.  A function that fails in the
    plain reading too, where equal values are enough, decides the properties of values."""
    mine = [f for f in rest if is_functional(f) and not f["message"].count("rlimit") and not (f["function"] or "@").startswith("@")]
    if not mine:
        return []
    q = Proof(extract, tmp, "-plain", p.skip, p.drop)
    if not q.ok:
        return []
    plain = {f["function"] for f in split_canary(q)[1]}
    return [f for f in mine if f["function"] not in plain]


def prove(extract, tmp, prop):
    """Runs the verifier; functions it cannot take are left out step by step."""
    skip, drop, hist = set(), set(), []
    p = None
    # the command-line program is only part of the text where it is what is asked about
    main, loc = prop == "C22", prop == "C21"
    for rnd in range(10):
        p = Proof(extract, tmp, "-%d" % rnd, skip, drop, main=main, located=loc)
        if p.ok:
            break
        if main and ("decoder::main" in skip or not p.front or any((i["function"] or "@world") == "@world" for i in p.front)):
            hist.append([("decoder::main", "left out: " + p.why[:200])])
            main = False
            continue
        if not p.front:
            break
        ks = {i["function"] for i in p.front if i["function"] and not i["function"].startswith(("@", "type "))}
        hist.append([(i["function"], i["message"][:200]) for i in p.front][:6])
        before = (set(skip), set(drop))
        for k in ks:
            if k in skip:
                drop.add(k)
            else:
                skip.add(k)
        if (skip, drop) == before:
            break
    if p.ok and split_canary(p)[1]:
        # a solver that gives up has not refuted anything: the functions that failed are asked
        # about again with other seeds and more resources.  What one run discharges is discharged.
        again = {}

        def ask(n):
            opt = ["--rlimit", "60", "--smt-option", "smt.random_seed=%d" % n, "--smt-option", "sat.random_seed=%d" % n]
            again[n] = Proof(extract, tmp, "-r%d" % n, skip, drop, extra=opt, main=main, located=loc)

        ts = [threading.Thread(target=ask, args=(n,)) for n in (7, 23)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for q in again.values():
            qc, qrest = split_canary(q)
            if q.ok and qc:
                still = {f["function"] for f in qrest}
                p.reproved |= {f["function"] for f in split_canary(p)[1] if f["function"] not in still}
                p.failures = [f for f in p.failures if f in split_canary(p)[0] or f["function"] in still]
    p.history = hist
    return p


def vacuous(extract, tmp, p):
    """Functions whose contract lets `assert(false)` pass at their start (there must be none)."""
    q = Proof(extract, tmp, "-smoke", p.skip, p.drop, smoke=True, main=p.main, located=p.located)
    if not q.ok:
        return None, []
    src = open(q.x).read().split("\n")
    have = {q.owner(i + 1)["key"] for i, t in enumerate(src) if t.strip() == "assert(false);" and q.owner(i + 1)}
    hit = {q.owner(n)["key"] for f in q.failures for n in f["lines"] if src[n - 1].strip() == "assert(false);" and q.owner(n)}
    return len(have), sorted(have - hit)


def split_canary(p):
    can = [f for f in p.failures if (f["function"] or "") == "@props" and "v_canary" in (f["rendered"] + f["clause"])]
    rest = [f for f in p.failures if f not in can]
    return can, rest


# ---- verdict ------------------------------------------------------------------------------
CONES = {
    # which parts of the verified text a property's argument runs through (prefixes of keys)
    "C01": ["der::", "x509::"],
    "C02": ["der::reader", "der::parser"],
    "C03": ["der::parser", "der::reader", "der::types::Identifier"],
    "C04": ["der::"],
    "C05": ["der::parser", "der::reader"],
    "C06": ["der::types::ASNInteger", "der::parser"],
    "C07": ["der::calendar", "der::parser"],
    "C08": ["der::parser", "der::types::ASNObjectIdentifier"],
    "C09": ["der::parser::parse_bit_string", "der::types::ASNBitString"],
    "C10": ["der::", "x509::"],
    "C11": ["x509::Validity", "der::calendar", "der::types::UtcTime"],
    "C12": ["der::", "x509::Name", "x509::RelativeDistinguishedName"],
    "C13": ["der::", "x509::ext"],
    "C14": ["der::", "x509::ext::KeyUsage"],
    "C15": ["der::", "x509::ext::BasicConstraints"],
    "C16": ["der::", "x509::ext::ExtendedKeyUsage"],
    "C17": ["der::", "x509::ext::SubjectAlternativeName", "x509::ext::GeneralName"],
    "C18": ["x509::", "decoder::"],
    "C19": ["der::"],
    "C20": ["der::types", "der::oid"],
    "C21": ["der::", "x509::"],
    "C22": ["decoder::main"],
}


def in_cone(prop, key):
    return any(key.startswith(c) for c in CONES.get(prop, []))


def norm(name):
    n = name[3:] if name.startswith("x::") else name
    return n


def evidence(prop, tier, seed, p, can, rest, srep, notes, nviol, bounded, vac):
    # every query of the verifier counts as one obligation: a function body (with all its
    # postconditions, invariants, assertions, bounds), a lemma or a termination check
    obl = [b for b in p.breakdown if not b["function"].endswith("v_canary")]
    cone = [b for b in obl if in_cone(prop, norm(b["function"])) or norm(b["function"]).startswith(("lemmas::", "spec::", "bits::", "vpre::", "props::"))]
    done = [b for b in cone if b.get("success")]
    fns = [f for f in p.info["functions"] if f["contracted"] and not f["key"].startswith(("@", "type "))]
    mine = [f for f in fns if in_cone(prop, f["key"]) or prop in f["props"]]
    trusted = json.load(open(os.path.join(HERE, "trusted.json")))
    kinds = {}
    for b in cone:
        kinds[b.get("mode:", "?")] = kinds.get(b.get("mode:", "?"), 0) + 1
    cov = {
        "obligations": len(cone),
        "discharged": len(done),
        "obligation_unit": "one verifier query: a function body with all its contract clauses, or a lemma, or a termination check",
        "obligations_by_kind": kinds,
        "back_end": BACK_END,
        "checker_cmd": " ".join(getattr(p, "cmd", [])) + "   (file extracted by extract/target/release/extract --repo %s)" % REPO,
        "trusted_base": trusted["trusted"],
        "solver_ms": round(sum(b.get("time-micros", 0) for b in cone) / 1000.0, 1),
        "verifier_wall_s": round(p.wall, 2),
        "functions_under_contract": sorted(f["key"] for f in mine),
        "functions_owned": sorted(f["key"] for f in fns if prop in f["props"] or p.located),
        "verified_whole_crate": {"verified": p.results.get("verified", 0), "errors": max(0, p.results.get("errors", 0) - len(can))},
        "bounded_only": sorted(bounded),
        "not_under_contract": p.info["not_under_contract"],
        "inlined_at_call_sites": len(p.info["inlined"]),
        "lowering_notes": p.info["notes"] + p.info["unsupported"],
        "canary_rejected": bool(can),
        "vacuity": vac,
        "failed_obligations": ["%s: %s: %s" % (f["function"], f["message"], f["clause"]) for f in rest][:20],
        "front_end_history": getattr(p, "history", []),
        "evaluations": srep.get("evaluations", 0),
        "distinct_nontrivial": srep.get("distinct_nontrivial", 0),
        "rule": "differential runs of the real crate against the executable form of the same specification (witness search; not counted as proof). Non-trivial: accepted, or at least two octets; distinct per search process by target and bytes",
        "evaluations_by_target": srep.get("by_target", {}),
        "samples": srep.get("samples", [])[:6],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL, "coverage": cov, "assumptions": trusted["assumptions"] + notes, "wall_s": round(time.time() - T0, 2), "violations": nviol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def replay_file(prop, title, viol, owned, p):
    d = os.path.join(HERE, "out")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-replay.txt" % prop)
    with open(path, "w") as f:
        f.write("property: %s\ntitle: %s\n" % (prop, title))
        if viol:
            f.write("target: %s\ndata: %s\n" % (viol["target"], viol["data"]))
            f.write("message: %s\n" % viol["message"].replace("\n", "\n  "))
            f.write("replayed with: python3 check.py %s --replay %s\n" % (prop, path))
        else:
            f.write("no failing input was found; the obligations below are not discharged\n")
        for o in owned:
            f.write("\nobligation: %s\nsource: %s:%s\nfailure: %s\nclause: %s\n%s\n" % (o["function"], o["file"], o["line"], o["message"], o["clause"], o["rendered"]))
    return path


def main():
    a = sys.argv[1:]
    props = properties()
    if not a or a[0] not in props:
        log("usage: check.py PROPERTY [--tier quick|thorough] [--replay FILE]")
        sys.exit(2)
    prop = a[0]
    if "--baseline" in a:
        i, s = literals()
        json.dump({"ints": {str(k): v for k, v in sorted(i.items())}, "strs": dict(sorted(s.items()))}, open(BASELINE, "w"), indent=0, sort_keys=True)
        tmp = tempfile.mkdtemp(prefix="rasn-check-")
        try:
            p = Proof(build_extract(), tmp, "-base", main=True)
            with open(LOOPS, "w") as f:
                json.dump({f["key"]: f["loops"] for f in p.info["functions"] if f["contracted"] and f["loops"]}, f, indent=1, sort_keys=True)
                f.write("\n")
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    tmp = tempfile.mkdtemp(prefix="rasn-check-")
    try:
        if "--replay" in a:
            exe, err = build_search()
            if exe is None:
                log(err)
                sys.exit(2)
            r = subprocess.run([exe, "show", a[a.index("--replay") + 1]])
            sys.exit(0 if r.returncode == 0 else 1)
        sys.exit(decide(prop, props[prop]["title"], tier, seed, tmp))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(prop, title, tier, seed, tmp):
    thorough = tier == "thorough"
    box = {}
    th = threading.Thread(target=lambda: box.update(x=build_search()))
    th.start()
    extract = build_extract()
    th.join()
    exe, berr = box.get("x", (None, "no search"))
    dictfile = os.path.join(tmp, "dict.txt")
    new = write_dict(dictfile)
    procs = 7 if thorough else 3
    secs = 240 if thorough else 6
    s1 = Search(exe, prop, seed, secs, dictfile, tmp, procs, "a") if exe else None

    p = prove(extract, tmp, prop)
    can, rest = split_canary(p)
    notes = []
    if p.reproved:
        notes.append("discharged with another seed or a larger resource limit of the solver: " + ", ".join(sorted(x or "?" for x in p.reproved)))
    if p.ok and not can:
        # the rejected lemma was accepted: the assumptions contradict each other, no proof counts
        log("the verifier accepts `false`: its assumptions are inconsistent")
        return 2
    owned = located_owned(extract, tmp, p, rest) if p.located else [f for f in rest if prop in owners(f)]
    bounded = sorted({f["key"] for f in p.lost() if in_cone(prop, f["key"]) or prop in f["props"] or (prop == "C18" and PRINTING.search(f["key"])) or (prop == "C20" and DISPLAY.search(f["key"]))})
    if prop == "C22" and not p.main:
        bounded.append("decoder::main")
    # a proof is only as good as its annotations: where the loops of a function are others than
    # those its invariants were written for, a rejected proof says nothing about the code.
    # The function is then not proved; the search stands in for it.
    adrift = p.reshaped()
    undecided = [f for f in owned if f["function"] in adrift]
    owned = [f for f in owned if f["function"] not in adrift]
    bounded = sorted(set(bounded) | {f["function"] for f in undecided})
    if not p.ok:
        notes.append("no obligation was discharged in this run: " + p.why[:500])
    srep, viol = s1.wait() if s1 else ({}, None)
    if exe is None:
        notes.append("the search could not be built: " + berr[-300:])

    def merge(r):
        for k in ("evaluations", "distinct_nontrivial", "accepted"):
            srep[k] = srep.get(k, 0) + r.get(k, 0)
        for t, n in r.get("by_target", {}).items():
            srep.setdefault("by_target", {})[t] = srep.get("by_target", {}).get(t, 0) + n

    if viol is None and owned and all(f["function"] and INTERNAL.search(f["function"]) for f in owned):
        # an internal function no longer meets its contract: is the contract still needed?
        # Its body is then verified at its call sites, against the contracts of its callers.
        before = {f["key"] for f in p.lost()}
        drop = {f["function"] for f in rest if f["function"] and INTERNAL.search(f["function"])}
        for rnd in range(3):
            q = Proof(extract, tmp, "-d%d" % rnd, p.skip, p.drop | drop, main=p.main, located=p.located)
            if not q.ok:
                break
            qc, qrest = split_canary(q)
            if not qrest and {f["key"] for f in q.lost()} <= before and qc:
                # every obligation that is left is discharged, those of the callers included
                notes.append("discharged with the contracts of %s replaced by their bodies" % ", ".join(sorted(drop)))
                q.history, q.reproved = p.history, p.reproved
                p, can, rest, owned = q, qc, qrest, []
                break
            more = {f["function"] for f in qrest if f["function"] and INTERNAL.search(f["function"])} - drop
            if not more or any(not INTERNAL.search(f["function"] or "") for f in qrest):
                break
            drop |= more

    vac = {}
    if thorough and p.ok:
        n, vs = vacuous(extract, tmp, p)
        vac = {"functions_tested": n, "vacuous": vs}
        if vs:
            notes.append("contracts that cannot be violated: " + ", ".join(vs))
            bounded = sorted(set(bounded) | {v for v in vs if in_cone(prop, v)})
        r = subprocess.run([sys.executable, os.path.join(HERE, "contracts", "test_ints.py")], capture_output=True, text=True)
        if r.returncode == 1:
            log(r.stdout)
            log("the assumed specifications of the number types do not hold")
            return 2
        notes.append("assumed specifications of the number types run against the library: " + (r.stdout.strip().split("\n")[0] if r.returncode == 0 else "not run"))
    near = [f for f in rest if f in owned or (f["function"] and in_cone(prop, f["function"]))]
    if viol is None and exe and (owned or bounded or near or not p.ok or new):
        # something is not proved in this run: look harder for an input
        more = 60 if owned or undecided else (40 if (bounded or near or not p.ok) else 6)
        if thorough:
            more = 120
        r2, viol = Search(exe, prop, seed + 77, more, dictfile, tmp, 8, "b").wait()
        merge(r2)

    for f in rest:
        if f in undecided:
            notes.append("not proved, its loops are not those the invariants were written for (bounded check only): %s: %s" % (f["function"], f["message"]))
        elif f not in owned:
            notes.append("not discharged, decides other properties: %s: %s" % (f["function"], f["message"]))
    nviol = 1 if (viol or owned) else 0
    evidence(prop, tier, seed, p, can, rest, srep, notes, nviol, bounded, vac)
    if viol:
        path = replay_file(prop, title, viol, owned or undecided or rest, p)
        log("%s: %s\n  %s %s" % (prop, viol["message"], viol["target"], viol["data"][:400]))
        for f in (owned or rest)[:5]:
            log("  failed obligation: %s: %s: %s" % (f["function"], f["message"], f["clause"]))
        log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if owned:
        path = replay_file(prop, title, None, owned, p)
        for f in owned[:5]:
            log("  failed obligation: %s: %s: %s" % (f["function"], f["message"], f["clause"]))
        log("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        return 1
    log("%s: %d verified, %d failed, %d not proved here (bounded); %d runs compared" % (prop, p.results.get("verified", 0), len(rest), len(bounded), srep.get("evaluations", 0)))
    return 0


main()
