#!/usr/bin/env python3
"""Runs the check of one property:  run.py ID [--tier quick|thorough] [--repo DIR] [--keep]

For each unit of props/ID: extract the functions from the repository's current source (tool/), have Verus discharge the
contracts, probe for vacuity, and run the same extracted text natively against an executable reading of the property
(replay / search for a failing input / bounded stand-in).  See DESIGN.md for the outcome rules.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
TOOLCHAIN = "1.98.1"


def sh(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd, start_new_session=True)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace"), time.time() - t
    except subprocess.TimeoutExpired as x:
        return -9, (x.stdout or b"").decode("utf8", "replace"), (x.stderr or b"").decode("utf8", "replace") + "\nTIMEOUT", time.time() - t


def build_tool():
    exe = os.path.join(V, "build", "vx", "debug", "vx")
    src = [os.path.join(V, "tool", "Cargo.toml")] + glob.glob(os.path.join(V, "tool", "src", "*.rs"))
    if not os.path.exists(exe) or any(os.path.getmtime(s) > os.path.getmtime(exe) for s in src):
        rc, o, e, _ = sh(["cargo", "build", "--offline", "-q", "--target-dir", os.path.join(V, "build", "vx")], 600,
                         {"CARGO_NET_OFFLINE": "true"}, os.path.join(V, "tool"))
        if rc != 0:
            print("cannot build the extractor:\n" + e, file=sys.stderr)
            sys.exit(3)
    return exe


UNDECIDED_PAT = re.compile(r"rlimit|[Rr]esource limit|not yet support|not supported|cannot find|unsupported", re.I)
OBLIG_PAT = re.compile(
    r"postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|possible arithmetic|"
    r"possible division by zero|decreases not satisfied|possible bit shift|recommendation not met|unreachable|index|loop invariant|"
    r"cannot show|could not prove|might not|requires not satisfied|termination", re.I)


def fn_ranges(text):
    out, st = [], None
    for i, l in enumerate(text.split("\n"), 1):
        m = re.match(r"//@FN-(BEGIN|END) (.*)", l)
        if m:
            if m.group(1) == "BEGIN":
                st = (m.group(2), i)
            else:
                out.append((st[0], st[1], i))
    return out


def fn_of(ranges, line):
    for n, a, b in ranges:
        if a <= line <= b:
            return n
    return None


def verus(path, extra=(), timeout=400):
    cmd = ["verus", os.path.basename(path), "--edition", "2024", "--output-json", "--time", "--error-format=json",
           "--num-threads", "6", "--multiple-errors", "20"] + list(extra)
    rc, o, e, w = sh(cmd, timeout, {"RUSTUP_TOOLCHAIN": TOOLCHAIN}, os.path.dirname(path))
    res = {"rc": rc, "wall": w, "verified": 0, "errors": None, "diags": [], "smt_ms": 0, "raw": e[-4000:], "fn_ms": {}}
    try:
        j = json.loads(o[o.index("{"):])
        vr = j.get("verification-results", {})
        res["verified"] = vr.get("verified", 0)
        res["errors"] = vr.get("errors")
        res["success"] = vr.get("success")
        tm = j.get("times-ms", {})
        smt = tm.get("smt", {})
        res["smt_ms"] = smt.get("smt-run", smt.get("total", 0)) if isinstance(smt, dict) else 0
        for m in (smt.get("smt-run-module-times", []) if isinstance(smt, dict) else []):
            for f in m.get("function-breakdown", []):
                res["fn_ms"][f.get("function")] = f.get("time", f.get("time-micros", 0) / 1000)
    except Exception:
        pass
    for l in e.split("\n"):
        l = l.strip()
        if not l.startswith("{"):
            continue
        try:
            d = json.loads(l)
        except Exception:
            continue
        if d.get("$message_type") == "diagnostic" and d.get("level") == "error":
            sp = d.get("spans", [])
            res["diags"].append({"msg": d["message"], "spans": [(s["line_start"], s["is_primary"], s.get("label"),
                                " ".join(t["text"].strip() for t in s.get("text", []))) for s in sp], "rendered": d.get("rendered", ""),
                                "children": [c.get("message") for c in d.get("children", [])]})
    return res


def classify(res, ranges):
    """-> (status, failed obligations, notes): status in ok | failed | undecided"""
    real = [d for d in res["diags"] if not d["msg"].startswith("aborting due to")]
    if res["rc"] == 0 and res.get("success") and not real:
        return "ok", [], []
    failed, notes = [], []
    for d in real:
        lines = [s[0] for s in d["spans"]]
        fns = [fn_of(ranges, l) for l in lines]
        fn = None
        # the body location decides whose obligation it is: for a failed precondition that is the caller (primary span)
        for s in d["spans"]:
            if s[1] and fn_of(ranges, s[0]):
                fn = fn_of(ranges, s[0])
                break
        fn = fn or next((f for f in fns if f), None)
        if OBLIG_PAT.search(d["msg"]) and not UNDECIDED_PAT.search(d["msg"]) and fn:
            clause = next((s[3] for s in d["spans"] if s[2] and "failed" in (s[2] or "")), None) or \
                next((s[3] for s in d["spans"] if s[1]), "")
            failed.append({"fn": fn, "kind": d["msg"], "clause": clause[:300], "detail": d["rendered"][:3000]})
        else:
            notes.append((fn or "?") + ": " + d["msg"][:300])
    if res["rc"] == -9:
        notes.append("verifier timed out")
    if notes or not failed:
        if not notes:
            notes = ["verifier gave no verdict: " + res["raw"][-300:]]
        return "undecided", failed, notes
    return "failed", failed, notes


def scan_trusted(text):
    t = []
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:proof |exec )?(?:fn|struct)\s+(\w+)", text):
        t.append("external_body: " + m.group(1))
    for m in re.finditer(r"assume_specification(?:<[^\[]*>)?\s*\[\s*([^\]]+?)\s*\]\s*\(", text):
        t.append("assume_specification: " + m.group(1))
    for m in re.finditer(r"#\[verifier::external_type_specification\][\s\S]{0,200}?struct\s+(\w+)", text):
        t.append("external_type_specification: " + m.group(1))
    for m in re.finditer(r"\b(assume|admit)\s*\(", text):
        t.append(m.group(1) + "() at offset %d" % m.start())
    for m in re.finditer(r"#\[verifier::(exec_allows_no_decreases_clause|loop_isolation\(false\)|spinoff_prover|rlimit\([^)]*\))\]", text):
        if "exec_allows" in m.group(1):
            t.append("termination not checked: " + m.group(1))
    for m in re.finditer(r"uninterp spec fn (\w+)", text):
        t.append("uninterpreted: " + m.group(1))
    for m in re.finditer(r"#\[verifier::axiom\]|axiom fn (\w+)|broadcast axiom fn (\w+)", text):
        t.append("axiom: " + (m.group(1) or m.group(2) or "?"))
    return sorted(set(t))


def known_findings(pid):
    out = []
    p = os.path.join(V, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                k = json.loads(l)
                if k.get("property") == pid and k.get("status") == "open":
                    out.append(k)
    return out


def run_unit(pid, name, repo, exe, work, tier, seed):
    d = os.path.join(V, "props", pid)
    u = {"unit": name, "extract": None, "verus": None, "native": None}
    out = os.path.join(work, name)
    os.makedirs(out, exist_ok=True)
    rc, o, e, w = sh([exe, repo, os.path.join(d, name + ".vx"), out], 120)
    u["extract"] = {"rc": rc, "stderr": e[-2000:], "wall": w}
    rep = {"functions": [], "transformations": [], "missing": []}
    if os.path.exists(os.path.join(out, "report.json")):
        rep = json.load(open(os.path.join(out, "report.json")))
    u["report"] = rep
    if rc == 2 or rc not in (0, 3):
        u["extract"]["error"] = e
    vpath = os.path.join(d, name + ".verus.rs")
    npath = os.path.join(d, name + ".native.rs")
    jobs = {}
    with cf.ThreadPoolExecutor(4) as ex:
        if os.path.exists(vpath):
            jobs["verus"] = ex.submit(do_verus, vpath, out, rep, tier)
        if os.path.exists(npath):
            jobs["native"] = ex.submit(do_native, npath, out, rep, tier, seed, repo)
        for k, f in jobs.items():
            u[k] = f.result()
    return u


def do_verus(vpath, out, rep, tier):
    ext = open(os.path.join(out, "extracted_verus.rs")).read() if os.path.exists(os.path.join(out, "extracted_verus.rs")) else ""
    pre = open(vpath).read()
    for inc in re.findall(r"^//@include (\S+)$", pre, re.M):
        pre = pre.replace("//@include " + inc, open(os.path.join(V, "lib", inc)).read())
    text = pre.replace("//@EXTRACTED@", ext) if "//@EXTRACTED@" in pre else pre + ext
    plain = text.replace("/*@PROBE-FN@*/", "")
    plain = re.sub(r"/\*@PROBE-LOOP \d+@\*/", "", plain)
    f = os.path.join(out, "v.rs")
    open(f, "w").write(plain)
    ranges = fn_ranges(plain)
    contracted = [x for x in rep["functions"] if x["contract"] and not x["noverus"]]
    skeleton = [x["fn"] for x in rep["functions"] if not x["noverus"] and (x["auto"] or x["loops"] != x["loops_expected"])]
    res = verus(f)
    status, failed, notes = classify(res, ranges)
    if status != "ok" and res["rc"] != -9:
        # a proof that fails must fail again under other solver seeds and a larger budget before it counts
        for s in (7, 42):
            r2 = verus(f, ["--rlimit", "40", "--smt-option", "smt.random_seed=%d" % s])
            s2, f2, n2 = classify(r2, ranges)
            if s2 == "ok" or (status == "undecided" and s2 == "failed"):
                res, status, failed, notes = r2, s2, f2, n2
            if status == "ok":
                break
            if not any("rlimit" in n.lower() or "resource" in n.lower() for n in n2) and s2 == "undecided":
                break
    r = {"status": status, "failed": failed, "notes": notes, "verified": res["verified"], "errors": res["errors"], "wall": res["wall"],
         "smt_ms": res["smt_ms"], "contracts": [x["fn"] for x in contracted], "skeleton_changed": skeleton,
         "trusted": scan_trusted(plain), "sha": hashlib.sha256(plain.encode()).hexdigest()[:16], "fn_ms": res["fn_ms"], "text": plain}
    r["clauses"] = count_clauses(plain, ranges)
    r["probes"] = None
    if rep["missing"]:
        r["status"] = "undecided"
        r["notes"] = ["missing anchors: " + "; ".join(rep["missing"])] + r["notes"]
    if r["status"] == "ok" and len(contracted) == 0:
        r["status"] = "undecided"
        r["notes"].append("no contract was checked")
    if r["status"] == "ok":
        # vacuity: with assert(false) at the entry of each contracted function and loop body, each must fail
        pt = text
        n = [0]

        def rep_fn(m):
            n[0] += 1
            return "assert(false); "
        pt2 = pt.replace("/*@PROBE-FN@*/", "proof { assert(false); /*vxprobe-fn*/ }")
        pt2 = re.sub(r"/\*@PROBE-LOOP \d+@\*/", "", pt2)
        pt3 = re.sub(r"/\*@PROBE-LOOP \d+@\*/", "proof { assert(false); /*vxprobe-loop*/ }", pt.replace("/*@PROBE-FN@*/", ""))
        want_fn = [x["fn"] for x in rep["functions"] if not x["noverus"]]
        hits, want = 0, 0
        for i, t in enumerate((pt2, pt3)):
            pf = os.path.join(out, "probe%d.rs" % i)
            open(pf, "w").write(t)
            mark = "/*vxprobe-fn*/" if i == 0 else "/*vxprobe-loop*/"
            lines = t.split("\n")
            plines = [k + 1 for k, l in enumerate(lines) if mark in l]
            # several probes may share a line
            cnt = sum(l.count(mark) for l in lines)
            if cnt == 0:
                continue
            pr = verus(pf)
            bad = set()
            for dd in pr["diags"]:
                for s in dd["spans"]:
                    if s[0] in plines and "assert" in dd["msg"]:
                        bad.add(s[0])
            want += len(set(plines))
            hits += len(bad & set(plines))
            unreach = sorted(set(plines) - bad)
            if unreach:
                r["status"] = "undecided"
                r["notes"].append("vacuity probe not refuted at: " + ", ".join(str(fn_of(fn_ranges(t), k)) for k in unreach))
        r["probes"] = {"inserted": want, "refuted": hits}
    return r


def count_clauses(text, ranges):
    """Obligations by clause, counted from the text handed to the verifier: ensures/invariant/decreases/assert clauses and call-site requires
    are what Verus checks; here only the written clauses are counted."""
    n = 0
    lines = text.split("\n")
    for _, a, b in ranges:
        body = "\n".join(lines[a:b])
        for kw in ("ensures", "invariant_except_break", "invariant", "decreases"):
            for m in re.finditer(r"\b%s\b" % kw, body):
                seg = body[m.end():]
                # clauses up to the next keyword or body brace at depth 0
                depth, c, has = 0, 0, False
                for ch in seg:
                    if ch in "([":
                        depth += 1
                    elif ch in ")]":
                        depth -= 1
                    elif ch == "{" and depth == 0:
                        break
                    elif ch == "{":
                        depth += 1
                    elif ch == "}":
                        depth -= 1
                    elif ch == "," and depth == 0:
                        c += 1
                        has = False
                        continue
                    if not ch.isspace():
                        has = True
                n += max(1, c + (1 if has else 0)) if kw != "decreases" else 1
        n += len(re.findall(r"\bassert\b", body))
    return n


def deps_dir(repo):
    for p in (os.path.join(repo, "target", "debug", "deps"), "/repo/target/debug/deps"):
        if os.path.isdir(p):
            return p
    return None


def find_lib(c, dd, pins):
    libs = sorted(p for p in glob.glob(os.path.join(dd or "", "lib%s-*" % c)) if p.endswith((".rlib", ".so")))
    if c in pins:
        libs = [p for p in libs if "-%s." % pins[c] in p] or libs
    libs.sort(key=os.path.getmtime)
    return libs[-1] if libs else None


def build_crate(c, path, dd, out):
    """Compiles one crate of the repository from its current source against the already built dependencies."""
    t0 = time.time()
    ref = find_lib(c, dd, {})
    if not ref:
        return 0, {}, "no earlier build of %s to take the dependencies from" % c
    rc, o, e, _ = sh(["rustc", "-Zls=root", ref], 120, dict(RUSTC_BOOTSTRAP="1"), out)
    pins = dict(re.findall(r"^\d+ (\w+)-([0-9a-f]{16}) hash", o, re.M))
    toml = open(os.path.join(path, "Cargo.toml")).read()
    sec = re.search(r"^\[dependencies\]$(.*?)(?=^\[|\Z)", toml, re.M | re.S).group(1)
    name = re.search(r'^name = "([^"]+)"', toml, re.M).group(1)
    args = ["rustc", "--crate-name", c, "--edition", "2024", "--crate-type", "rlib", "--cap-lints", "allow", "-A", "warnings", "--error-format=short",
            "-C", "codegen-units=64", "-C", "debug-assertions=on", "-C", "overflow-checks=on", "-C", "embed-bitcode=no",
            os.path.join(path, "src", "lib.rs"), "-o", os.path.join(out, "lib%s.rlib" % c), "-L", "dependency=%s" % dd]
    for n in re.findall(r"^([\w-]+)(?:\.\w+)? *=", sec, re.M):
        lib = find_lib(n.replace("-", "_"), dd, pins)
        if lib:
            args += ["--extern", "%s=%s" % (n.replace("-", "_"), lib)]
    env = dict(CARGO_PKG_NAME=name, CARGO_PKG_VERSION="0.0.0", CARGO_MANIFEST_DIR=path, CARGO_CRATE_NAME=c)
    outs = sorted(glob.glob(os.path.join(dd, "..", "build", name + "-*", "out")), key=os.path.getmtime)
    if outs:
        env["OUT_DIR"] = outs[-1]
    rc, o, e, _ = sh(args, 600, env, out)
    return time.time() - t0, pins, (e or "failed") if rc else ""


def do_native(npath, out, rep, tier, seed, repo):
    lib = open(os.path.join(V, "lib", "native_lib.rs")).read()
    ep = os.path.join(out, "extracted_native.rs")
    ext = open(ep).read() if os.path.exists(ep) else ""
    src = open(npath).read()
    src = re.sub(r"^//@include (\S+)$", lambda m: open(os.path.join(V, m.group(1))).read(), src, flags=re.M)
    if "//@EXTRACTED@" in src:
        src = src.replace("//@EXTRACTED@", ext)
    elif not re.search(r"^//@crate ", src, re.M):  # a harness over the whole crate calls the crate itself
        src += ext
    f = os.path.join(out, "n.rs")
    open(f, "w").write(lib + src)
    args = ["rustc", "--edition", "2024", "-O", "-C", "overflow-checks=on", "-C", "debug-assertions=on", "-A", "warnings", "--error-format=short", "n.rs", "-o", "n.bin"]
    ext_crates = re.findall(r"^//@extern (\w+)$", src, re.M)
    own = re.findall(r"^//@crate (\w+) (\S+)$", src, re.M)
    dd = deps_dir(repo)
    pins = {}
    for c, d in own:
        t, pins, err = build_crate(c, os.path.join(repo, d), dd, out)
        if err:
            return {"compiled": False, "wall_compile": t, "fails": [], "cases": 0, "result": None, "notes": ["crate %s did not compile: %s" % (c, err[-1200:])]}
        args += ["--extern", "%s=%s" % (c, os.path.join(out, "lib%s.rlib" % c))]
    for c in ext_crates:
        lib = find_lib(c, dd, pins)
        if lib:
            args += ["--extern", "%s=%s" % (c, lib)]
    if own:
        args[args.index("-O")] = "-Copt-level=0"
        args += ["-C", "link-arg=-Wl,--gc-sections", "-C", "strip=debuginfo"]
    if ext_crates or own:
        args += ["-L", "dependency=%s" % dd]
    rc, o, e, w = sh(args, 400, cwd=out)
    r = {"compiled": rc == 0, "wall_compile": w, "fails": [], "cases": 0, "result": None, "notes": []}
    if rc != 0:
        r["notes"].append("native compile failed: " + e[-1500:])
        return r
    env = {"VERIF_SEED": str(seed), "VERIF_TIER": tier}
    to = 240 if tier == "quick" else 1500
    rc, o, e, w = sh([os.path.join(out, "n.bin")], to, env, out)
    r["wall"] = w
    r["rc"] = rc
    for l in o.split("\n"):
        if l.startswith("VXFAIL "):
            r["fails"].append(json.loads(l[7:]))
        elif l.startswith("VXRESULT "):
            r["result"] = json.loads(l[9:])
            r["cases"] = r["result"]["cases"]
        elif l.startswith("VXHANG "):
            k = l.split()[1]
            rc2, o2, _, _ = sh([os.path.join(out, "n.bin")], 60, dict(env, VX_CASE=k), out)
            desc = next((x for x in o2.split("\n") if x.startswith("VXCASE")), "case " + k)
            r["fails"].append({"fn": "?", "case": int(k), "input": desc, "why": "did not return within 30 s"})
    if rc not in (0, 1, 4) or (rc == 0 and not r["result"]):
        r["notes"].append("native run ended with %s: %s" % (rc, (o + e)[-600:]))
        if rc in (-6, -11, -4, 134, 139):
            r["fails"].append({"fn": "?", "case": 0, "input": "see replay", "why": "the process died with signal %s (stack overflow or abort)" % rc})
    return r


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    repo = "/repo"
    keep = False
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]
            i += 1
        elif args[i] == "--repo":
            repo = args[i + 1]
            i += 1
        elif args[i] == "--keep":
            keep = True
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    exe = build_tool()
    meta = json.load(open(os.path.join(V, "props", pid, "meta.json")))
    work = os.path.join(V, "build", "work", pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    names = sorted(os.path.basename(p)[:-3] for p in glob.glob(os.path.join(V, "props", pid, "*.vx")))
    with cf.ThreadPoolExecutor(3) as ex:
        units = list(ex.map(lambda n: run_unit(pid, n, repo, exe, work, tier, seed), names))
    kf = known_findings(pid)
    kf_hit = set()
    viol = []
    notes = []
    proved, undecided = [], []
    obligations = discharged = cases = 0
    trusted, fns, trans, by_fn, samples = set(), [], set(), {}, []
    smt = 0
    decided_any = True
    kf_all = False
    for u in units:
        rep, v, n = u["report"], u["verus"], u["native"]
        for f in rep["functions"]:
            fns.append({k: f[k] for k in ("fn", "file", "line", "contract", "loops", "auto")} | {"back_end": "none" if f["noverus"] or not v else "verus/z3"})
        trans |= set(rep["transformations"])
        nfails = []
        if n:
            cases += n["cases"]
            if n["result"]:
                by_fn.update({u["unit"] + "/" + k: x for k, x in n["result"]["by_fn"].items()})
                samples += n["result"]["samples"]
            for fl in n["fails"]:
                hit = next((k for k in kf if re.fullmatch(k["fn"], fl["fn"]) and re.search(k["match"], fl["input"])), None)
                if hit:
                    kf_hit.add(hit["what"])
                else:
                    nfails.append(fl)
            if n["fails"] and not nfails:
                kf_all = True
            notes += n["notes"]
        if v:
            obligations += v["clauses"]
            smt += v["smt_ms"]
            trusted |= set(v["trusted"])
            if v["status"] == "ok":
                discharged += v["clauses"]
                proved += v["contracts"]
            else:
                undecided += [u["unit"] + ": " + x for x in v["notes"]]
        replay = None
        if nfails:
            replay = write_replay(pid, u, nfails, v, repo, seed, tier)
            viol.append((replay, False, nfails, v))
        elif v and v["failed"]:
            # obligations named by the verifier, no failing input in the search
            hard = [f for f in v["failed"] if f["fn"] not in v["skeleton_changed"]]
            if v["status"] == "failed" and hard and not v["skeleton_changed"]:
                if kf_all and n:
                    undecided.append(u["unit"] + ": obligations fail on a known finding")
                else:
                    replay = write_replay(pid, u, [], v, repo, seed, tier)
                    viol.append((replay, True, [], v))
            else:
                undecided += [u["unit"] + ": " + f["fn"] + ": " + f["kind"] + " (function skeleton changed)" for f in v["failed"]]
        nat_ok = n and n["compiled"] and n["result"] and not nfails
        ver_ok = v and v["status"] == "ok"
        other = not n and any(x["native"] and x["native"]["compiled"] and x["native"]["result"] for x in units)
        if not nat_ok and not ver_ok and not nfails and not replay and not other:
            decided_any = False
            notes.append("unit %s: neither the verifier nor the native run gave an answer" % u["unit"])
        if n and not n["compiled"] and not ver_ok:
            decided_any = False
    for k in kf:
        if k["what"] in kf_hit or k.get("always"):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    all_proved = all(u["verus"] and u["verus"]["status"] == "ok" for u in units if u["verus"]) and any(u["verus"] for u in units)
    level = meta.get("level", "proof") if all_proved else "exploration"
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level, "wall_s": round(time.time() - t0, 2), "violations": len(viol),
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "obligation_unit": "contract clauses (ensures / invariant / decreases / assert) written on extracted functions and counted in the text handed to "
                               "Verus on this run; Verus additionally checks call-site preconditions, overflow and index bounds in each of them",
            "verus_items_verified": sum(u["verus"]["verified"] for u in units if u["verus"]),
            "checker_cmd": "cd /verif && python3 run.py %s --tier %s" % (pid, tier),
            "back_ends": {"verus": "Verus 0.2026.09.13 with its Z3", "solver_ms": smt},
            "functions_under_contract": sorted(set(proved)),
            "functions_extracted": fns,
            "undecided_by_proof_this_run": undecided,
            "vacuity_probes": [dict(u["verus"]["probes"] or {}, unit=u["unit"]) for u in units if u["verus"]],
            "trusted_base": sorted(trusted) + meta.get("trusted", []),
            "extraction_transformations": sorted(trans),
            "bounded_functions": meta.get("bounded", []),
            "native_replay": {"cases": cases, "by_contract": by_fn, "note": "bounded search over boundary and random inputs (VERIF_SEED); never counted as proved"},
            "evaluations": cases,
            "distinct_nontrivial": cases,
            "rule": "native_replay cases: boundary grids and seeded random inputs per contract; every case evaluates the extracted code against the executable contract",
            "samples": samples[:12] or ["(no native samples this run)"],
            "explanation": "; ".join(notes) or "all units answered",
        },
        "assumptions": meta.get("assumptions", []),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    for u in units:
        v, n = u["verus"], u["native"]
        print("unit %s: verus=%s%s native=%s" % (u["unit"], v["status"] if v else "-", " (%d items, %d clauses)" % (v["verified"], v["clauses"]) if v else "",
              ("%d cases, %d failing%s" % (n["cases"], len(n["fails"]), "" if n["compiled"] else ", NOT COMPILED")) if n else "-"))
    for x in undecided:
        print("  undecided: " + x)
    for x in notes:
        print("  note: " + x[:1500])
    for u in units:
        v = u["verus"]
        if v and v["failed"]:
            for f in v["failed"][:8]:
                print("  obligation: %s: %s: %s" % (f["fn"], f["kind"], f["clause"][:160]))
                if os.environ.get("VX_VERBOSE"):
                    print(f["detail"])
    if viol:
        for replay, nfi, fl, v in viol:
            if fl:
                print("  failing input: %s(%s): %s" % (fl[0]["fn"], fl[0]["input"][:300], fl[0]["why"][:300]))
            print("VIOLATION property=%s replay=%s%s" % (pid, replay, " no-failing-input-found" if nfi else ""))
        sys.exit(1)
    if not decided_any:
        print("no answer for " + pid)
        sys.exit(3)
    if not keep:
        shutil.rmtree(work, ignore_errors=True)
    print("HELD property=%s level=%s obligations=%d discharged=%d cases=%d wall=%.1fs" % (pid, level, obligations, discharged, cases, time.time() - t0))
    sys.exit(0)


def write_replay(pid, u, fails, v, repo, seed, tier):
    d = os.path.join(V, "build", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (pid, u["unit"]))
    out = {"property": pid, "unit": u["unit"], "seed": seed, "tier": tier,
           "failing_inputs": fails,
           "failed_obligations": v["failed"] if v else [],
           "functions": [{k: f[k] for k in ("fn", "file", "line", "source")} for f in u["report"]["functions"]],
           "rerun": "cd /verif && VERIF_SEED=%d python3 run.py %s --tier %s --keep ; the native replay is build/work/%s/%s/n.bin (VX_CASE=<case> runs one case)" % (seed, pid, tier, pid, u["unit"]),
           "verifier_text": v["text"] if v and not fails else None}
    json.dump(out, open(p, "w"), indent=1)
    return p


if __name__ == "__main__":
    main()
