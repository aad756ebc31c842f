#!/usr/bin/env python3
"""Decide one property by bounded symbolic execution of /repo's current source.

usage: check.py <property id> [quick|thorough] [harness-substring]

1. cargo kani compiles the harness crate (/verif/harness) together with /repo's
   crates to goto programs (regenerated on every run, into a scratch directory).
2. Every harness goes to CBMC (unwinding assertions on).  All checks in the
   program (harness assertions, panics, overflow, bounds) must be discharged and
   every WITNESS must be reachable.
3. A counterexample is turned into a tape of input values and replayed against
   an ordinary build of /repo (dev and release); only what reproduces is
   reported as a VIOLATION.

exit 0: held; exit 1: VIOLATION printed; exit 2: no verdict (error).
"""
import concurrent.futures as cf
import glob
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
KANI = sorted(glob.glob(os.path.expanduser("~/.kani/kani-*")))[-1]
BIN = KANI + "/bin/"
HARNESS = VERIF + "/harness"
PINNED = "nightly-2026-05-14"
RUSTFLAGS = "-Zmir-opt-level=3 -Zinline-mir=yes -Zcross-crate-inline-threshold=always"
CBMC_FLAGS = ("--no-malloc-may-fail --no-undefined-shift-check --no-signed-overflow-check --nan-check "
              "--no-self-loops-to-assumptions --no-pointer-primitive-check --object-bits 16 "
              "--sat-solver cadical --verbosity 8").split()
# A "deep" harness (meta.json) repeats, at large sizes, what others decide at small ones. If the code under test
# puts it out of the solver's reach, that is reported in the evidence and the others decide.
LIMITS = {"quick": dict(total=800, one=400, deep=200, deep_until=280),
          "thorough": dict(total=10800, one=3600, deep=3600, deep_until=9000)}
MEM = 14 << 30
WORKERS = 8
# Loops that need more than the harness's unwinding get this many times as much.
UNWIND_MORE = (4, 32, 128, None)

T0 = time.time()
procs = set()
plock = threading.Lock()


class NoVerdict(Exception):
    pass


class OutOfReach(NoVerdict):
    """Time, memory or loop bounds were not enough."""


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    os.setsid()


def run(cmd, timeout, env=None, cwd=None, lim=True):
    """-> (rc or None on timeout, stdout, stderr)"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                         env=env, cwd=cwd, preexec_fn=limit if lim else os.setsid)
    with plock:
        procs.add(p)
    try:
        o, e = p.communicate(timeout=max(1, timeout))
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return None, "", ""
    finally:
        with plock:
            procs.discard(p)


def codegen(pid, tier, work, deadline):
    env = dict(os.environ)
    env.pop("RUSTUP_TOOLCHAIN", None)
    env.update(CARGO_NET_OFFLINE="true", RUSTFLAGS=RUSTFLAGS, CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    feats = pid.lower() + (",thorough" if tier == "thorough" else "")
    crate = work + "/crate"
    os.makedirs(crate)
    # Built from a copy, so that nothing is written in the committed crate.
    for f in ("Cargo.toml", "Cargo.lock"):
        shutil.copy(HARNESS + "/" + f, crate)
    shutil.copytree(HARNESS + "/src", crate + "/src")
    cmd = ["cargo", "kani", "--no-assertion-reach-checks", "--only-codegen", "-Z", "stubbing", "-Z", "c-ffi",
           "--target-dir", work + "/kani", "--no-default-features", "--features", feats]
    rc, o, e = run(cmd, deadline - time.time(), env=env, cwd=crate, lim=False)
    if rc != 0:
        sys.stdout.write((o + e)[-6000:])
        raise NoVerdict("code generation failed (rc %s)" % rc)
    hs = {}
    for f in glob.glob(work + "/kani/**/*kani-metadata.json", recursive=True):
        for p in json.load(open(f)).get("proof_harnesses", []):
            hs[p["pretty_name"]] = p
    return [hs[k] for k in sorted(hs)]


# Freeing an error value has no effect on anything a property speaks of: not encoded.
NO_EFFECT = re.compile(r"^<core::io::error::repr::Repr as std::ops::Drop>::drop$")


def link(h, work):
    out = "%s/%s.goto" % (work, re.sub(r"\W", "_", h["pretty_name"]))
    steps = [
        ["goto-cc", h["goto_file"], KANI + "/library/kani/kani_lib.c", "--function", h["mangled_name"], "-o", out],
        ["goto-instrument", "--add-library", "--no-malloc-may-fail", "--drop-unused-functions", out, out],
        ["goto-instrument", "--generate-function-body-options", "assert-false-assume-false",
         "--generate-function-body", ".*", "--drop-unused-functions", out, out],
        ["goto-instrument", "--ensure-one-backedge-per-target", out, out],
    ]
    names = re.sub(r"\.symtab\.out$", ".pretty_name_map.json", h["goto_file"])
    if os.path.exists(names):
        for k, v in json.load(open(names)).items():
            if v and NO_EFFECT.match(v):
                steps.insert(1, ["goto-instrument", "--remove-function-body", k, out, out])
                steps.insert(2, ["goto-instrument", "--generate-function-body-options", "nondet-return",
                                 "--generate-function-body", k, out, out])
    for s in steps:
        rc, o, e = run([BIN + s[0]] + s[1:], 300)
        if rc != 0:
            raise NoVerdict("%s failed on %s: %s" % (s[0], h["pretty_name"], (o + e)[-500:]))
    return out


RES = re.compile(r"^\[(.*)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$")


def cbmc_flags(fs):
    return [BIN + "cbmc"] + CBMC_FLAGS + ["--max-field-sensitivity-array-size", str(fs)]


def unwinding(unwind, loops):
    """Flags for the unwinding depth; `loops` are the loops that need more than `unwind`."""
    more = ["%s:%d" % x for x in sorted(loops.items())]
    return ["--unwind", str(unwind)] + (["--unwindset", ",".join(more)] if more else [])


def loop_ids(h, goto, prop):
    """cbmc's names for the loop of an unwinding assertion, which has the function's readable name."""
    fn, _, n = prop.rpartition(".unwind.")
    names = re.sub(r"\.symtab\.out$", ".pretty_name_map.json", h["goto_file"])
    fns = {fn}
    if os.path.exists(names):
        fns |= {k for k, v in json.load(open(names)).items() if v == fn}
    _, o, _ = run([BIN + "cbmc", "--show-loops", goto], 60)
    known = set(re.findall(r"^Loop (\S+):$", o, re.M))
    return sorted(i for i in (f + "." + n for f in fns) if i in known)


def only_loops(fails):
    return [f for f in fails if ".unwind." not in f[0] and ".no-body." not in f[0] and ".recursion" not in f[0]] == []


def solve(goto, unwind, loops, timeout, fs):
    """-> dict of result"""
    t = time.time()
    rc, o, e = run(cbmc_flags(fs) + ["--slice-formula"] + unwinding(unwind, loops) + [goto], timeout)
    r = dict(rc=rc, wall=time.time() - t, checks=0, fails=[], covers=0, covered=0, solver_s=0.0, steps=0,
             vars=0, clauses=0, queries=0, vccs=0)
    if rc is None:
        r["why"] = "time limit (%d s)" % timeout
        return r
    if rc not in (0, 10):
        r["killed"] = rc in (-9, -6, 6, 134, 137)
        r["why"] = "cbmc rc %s: %s" % (rc, (o + e)[-400:])
        return r
    lines = iter(o.splitlines())
    wit = {}
    for l in lines:
        while l.startswith("[") and "] " in l and not RES.match(l):
            nxt = next(lines, None)
            if nxt is None:
                break
            l += " " + nxt
        m = RES.match(l)
        if m:
            name, line, desc, st = m.groups()
            if ".cover." in name:
                if "WITNESS" in desc:
                    # The optimiser may have copied the witness: one copy has to be reached.
                    wit[line] = wit.get(line, False) or st == "FAILURE"
                continue
            r["checks"] += 1
            if st != "SUCCESS":
                r["fails"].append((name, desc))
        elif l.startswith("Runtime Solver:"):
            r["solver_s"] += float(l.split(":")[1].strip(" s"))
            r["queries"] += 1
        elif l.startswith("size of program expression:"):
            r["steps"] = int(l.split(":")[1].split()[0])
        elif l.startswith("Generated"):
            m = re.search(r"(\d+) remaining", l)
            r["vccs"] = int(m.group(1)) if m else 0
        else:
            m = re.match(r"(\d+) variables, (\d+) clauses", l)
            if m:
                r["vars"], r["clauses"] = int(m.group(1)), int(m.group(2))
    r["covers"], r["covered"] = len(wit), sum(wit.values())
    if r["checks"] == 0:
        r["rc"] = 6
        r["why"] = "no checks in cbmc output"
    return r


def tape(goto, unwind, loops, prop, timeout, fs):
    """Values drawn by the harness in the counterexample to `prop`, in order."""
    rc, o, e = run(cbmc_flags(fs) + unwinding(unwind, loops) + ["--property", prop, "--trace", "--json-ui", goto],
                   timeout)
    if rc != 10:
        raise NoVerdict("no trace for %s (rc %s)" % (prop, rc))
    trace = None
    for item in json.loads(o):
        for r in item.get("result", []) if isinstance(item, dict) else []:
            if r.get("status") == "FAILURE" and r.get("trace"):
                trace = r["trace"]
    if trace is None:
        raise NoVerdict("no trace for %s" % prop)
    vals = []
    cur = None

    def bits(v):
        if "binary" in v:
            b = v["binary"]
            n = max(1, len(b) // 8)
            return int(b, 2).to_bytes(n, "little")
        if "elements" in v:
            return b"".join(bits(x["value"]) for x in v["elements"])
        if "members" in v:
            return b"".join(bits(x["value"]) for x in v["members"])
        return b""

    for s in trace:
        k = s.get("stepType")
        if k == "function-call":
            n = s["function"].get("displayName", "") + " " + s["function"].get("identifier", "")
            m = re.search(r"nd::imp::(u8|u16|u32|u64|bytes)\b", n)
            if m and cur is None:
                cur = dict(id=s["function"].get("identifier"), kind=m.group(1), val=None, el={})
        elif k == "function-return" and cur is not None:
            if s["function"].get("identifier") == cur["id"]:
                v = cur["val"]
                if cur["kind"] == "bytes":
                    n = max(cur["el"], default=-1) + 1
                    b = bytearray(v or b"")
                    b.extend(b"\0" * (n - len(b)))
                    for i, x in cur["el"].items():
                        b[i] = x
                    v = bytes(b)
                vals.append(list(v or b""))
                cur = None
        elif k == "assignment" and cur is not None:
            lhs = s.get("lhs", "")
            v = s.get("value", {})
            m = re.search(r"\[(\d+)[a-z]*\]$", lhs)
            if cur["kind"] == "bytes":
                if m and "binary" in v and len(v["binary"]) == 8:
                    cur["el"][int(m.group(1))] = int(v["binary"], 2)
                elif "elements" in v:
                    cur["val"] = bits(v)
                    cur["el"] = {}
            elif "binary" in v:
                want = {"u8": 8, "u16": 16, "u32": 32, "u64": 64}[cur["kind"]]
                if len(v["binary"]) == want:
                    cur["val"] = bits(v)
    return vals


def replay(pid, h, vals, desc, work):
    """Run the harness natively on the tape. -> (reproduced, dir)"""
    name = h["pretty_name"]
    d = "%s/replays/%s-%s" % (VERIF, pid, re.sub(r"\W", "_", name))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/src")
    feats = json.dumps([pid.lower(), "thorough"])
    open(d + "/Cargo.toml", "w").write(
        '[package]\nname = "replay"\nversion = "0.1.0"\nedition = "2024"\n\n[workspace]\n\n[dependencies]\n'
        'vh = { path = "%s", default-features = false, features = %s }\n' % (HARNESS, feats))
    shutil.copy(HARNESS + "/Cargo.lock", d + "/Cargo.lock")
    path = name if name.startswith("vh::") else "vh::" + name
    rows = ",\n        ".join("vec!%s" % json.dumps(v) for v in vals)
    open(d + "/src/main.rs", "w").write(
        "// Counterexample for %s: %s\nfn main() {\n    vh::nd::load(vec![\n        %s\n    ]);\n    %s();\n"
        '    println!("the harness passed on these values");\n}\n' % (pid, desc, rows, path))
    open(d + "/run.sh", "w").write(
        "#!/bin/sh\n# exit 101: the violation reproduces against /repo's current tree\ncd \"$(dirname \"$0\")\" || exit 2\n"
        "export RUSTUP_TOOLCHAIN=%s CARGO_NET_OFFLINE=true\nT=$(mktemp -d)\ntrap 'rm -rf \"$T\"' EXIT\n"
        "cargo run -q --offline --target-dir \"$T\" $1\n" % PINNED)
    env = dict(os.environ, RUSTUP_TOOLCHAIN=PINNED, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0")
    env.pop("RUSTFLAGS", None)
    said = []
    hit = False
    for prof in ([], ["--release"]):
        rc, o, e = run(["cargo", "build", "-q", "--offline", "--target-dir", work + "/replay"] + prof, 300, env=env, cwd=d, lim=False)
        if rc != 0:
            raise NoVerdict("replay build failed: " + e[-1500:])
        rc, o, e = run([work + "/replay/" + ("release" if prof else "debug") + "/replay"], 60, env=env, cwd=d)
        said.append("%s: rc %s %s" % ("release" if prof else "dev", rc, " ".join(e.split())[:300]))
        # A panic, an abort or a run that does not end.
        hit |= rc in (101, 134, -6, -11) or rc is None
    open(d + "/outcome.txt", "w").write("\n".join(said) + "\n")
    return hit, d, said


def decide(pid, h, work, one, deadline, meta):
    name = h["pretty_name"]
    unwind = h["attributes"].get("unwind_value") or 4
    goto = link(h, work)
    fs = next((v for k, v in meta.get("field_sensitivity", {}).items() if k in name), 160)
    res = None
    loops = {}
    for more in UNWIND_MORE:
        left = deadline - time.time()
        if left < 5:
            raise OutOfReach("%s: out of time" % name)
        r = solve(goto, unwind, loops, min(one, left), fs)
        r["unwind"] = unwind
        r["name"] = name
        if "why" in r:
            raise (OutOfReach if r["rc"] is None or r.get("killed") else NoVerdict)("%s: %s" % (name, r["why"]))
        fails = r["fails"]
        real = not only_loops(fails)
        if any(".no-body." in f[0] or "unsupported" in f[1].lower() for f in fails) and not real:
            raise NoVerdict("%s: %s" % (name, fails[:3]))
        if real:
            break
        if not fails or not more:
            break
        # Only loops that go on: a loop with a known end costs what it takes.
        ids = [i for f, _ in fails for i in loop_ids(h, goto, f)]
        for i in ids:
            loops[i] = unwind * more
        if not ids:
            unwind *= 2
    res = r
    res["bad"] = None
    if res["fails"]:
        real = [f for f in res["fails"] if ".no-body." not in f[0] and ".recursion" not in f[0]]
        endless = only_loops(real)
        if not endless:
            real = [f for f in real if ".unwind." not in f[0]]
        # Assertions of the harness and panics first.
        real.sort(key=lambda f: (".assertion." not in f[0], f[0]))
        why = []
        for prop, desc in real[:2 if endless else 4]:
            try:
                vals = tape(goto, res["unwind"], loops, prop, max(60, deadline - time.time()), fs)
                hit, d, said = replay(pid, h, vals, "%s (%s)" % (desc, prop), work + "/" + re.sub(r"\W", "_", name))
            except NoVerdict as x:
                why.append(str(x))
                continue
            if hit:
                res["bad"] = dict(prop=prop, desc=desc, replay=d, said=said)
                break
            why.append("%s: %s did not reproduce: %s" % (prop, desc, said))
        if res["bad"] is None:
            if endless:
                raise OutOfReach("%s: loops not covered: %s" % (name, why))
            raise NoVerdict("%s: counterexample not confirmed: %s" % (name, why))
    elif res["covered"] != res["covers"] or res["covers"] == 0:
        raise NoVerdict("%s: vacuous (%d of %d witnesses reached)" % (name, res["covered"], res["covers"]))
    try:
        os.remove(goto)
    except OSError:
        pass
    return res


def deep(h, meta):
    return any(re.fullmatch(d, h["pretty_name"].split("::")[-1]) for d in meta.get("deep", []))


def repo_functions(hs):
    """Functions of /repo in the encoded programs (from the goto symbol tables)."""
    found = set()
    for h in hs:
        f = h["goto_file"]
        for ext in (".pretty_name_map.json",):
            p = re.sub(r"\.symtab\.out$", ext, f)
            if os.path.exists(p):
                for v in json.load(open(p)).values():
                    if v and re.match(r"(<.* as )?(<impl )?tpm2(_rs_base|_rs_marshalable|_client|_impl)?::|<tpm2", v) \
                            and re.search(r"::[a-z_0-9]+(::<.*>)?(::\{closure#\d+\})?$", v) and " as spec::" not in v and "-union" not in v:
                        found.add(v)
    return found


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None
    lim = LIMITS[tier]
    deadline = T0 + lim["total"]
    meta = json.load(open(VERIF + "/meta.json")).get(pid, {})
    known = [k for k in (json.loads(l) for l in open(VERIF + "/known_findings.txt") if l.startswith("{")) if k["property"] == pid]
    base = VERIF + "/.work"
    os.makedirs(base, exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + "-", dir=base)
    results, errors, bad, knownhit, undecided = [], [], [], [], []
    nfun, funs = 0, []
    try:
        hs = codegen(pid, tier, work, deadline)
        if only:
            hs = [h for h in hs if only in h["pretty_name"]]
        if not hs:
            raise NoVerdict("no harnesses")
        funs = sorted(repo_functions(hs))
        log("%d harnesses, %d functions of /repo encoded" % (len(hs), len(funs)))
        # Longest first (measured order is only a hint).
        hint = meta.get("slow", [])
        hs.sort(key=lambda h: next((i for i, s in enumerate(hint) if s in h["pretty_name"]), 999))
        with cf.ThreadPoolExecutor(WORKERS) as ex:
            fs = {}
            for h in hs:
                if deep(h, meta):
                    fs[ex.submit(decide, pid, h, work, lim["deep"], T0 + lim["deep_until"], meta)] = h
                else:
                    fs[ex.submit(decide, pid, h, work, lim["one"], deadline, meta)] = h
            for f in cf.as_completed(fs):
                h = fs[f]
                try:
                    r = f.result()
                except NoVerdict as x:
                    if isinstance(x, OutOfReach) and deep(h, meta):
                        undecided.append(str(x)[:400])
                        log("NOT DECIDED", str(x)[:400])
                        continue
                    errors.append(str(x))
                    log("NO VERDICT", x)
                    continue
                results.append(r)
                k = next((k for k in known if k.get("status") == "known" and k["harness"] == h["pretty_name"].split("::")[-1]), None)
                log("%-60s %s %d checks, unwind %d, %.1f s (solver %.1f s)" % (
                    h["pretty_name"], "FAILS" if r["bad"] else "holds", r["checks"], r["unwind"], r["wall"], r["solver_s"]))
                if r["bad"]:
                    if k and re.search(k["match"], r["bad"]["desc"]):
                        knownhit.append(k)
                    else:
                        bad.append(r)
                        log("   ", r["bad"]["desc"], "|", "; ".join(r["bad"]["said"]))
                        if tier == "quick":
                            for g in fs:
                                g.cancel()
                            with plock:
                                for p in list(procs):
                                    try:
                                        os.killpg(p.pid, 9)
                                    except OSError:
                                        pass
                            break
    except NoVerdict as x:
        errors.append(str(x))
        log("NO VERDICT", x)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    cov = dict(
        explanation="Bounded symbolic execution (Kani front end to goto programs, CBMC symbolic execution, CaDiCaL SAT back end) "
                    "of the functions listed, called from the harnesses listed; every check in every harness was decided by the solver "
                    "for all values of the symbolic inputs within the stated bounds, with unwinding assertions on. " + meta.get("explanation", ""),
        engine="kani %s / cbmc / cadical" % os.path.basename(KANI),
        bounds=meta.get("bounds", []),
        outside_the_claim=meta.get("outside", []),
        harnesses=[dict(name=r["name"], unwind=r["unwind"], checks=r["checks"], failed=len(r["fails"]), ssa_steps=r["steps"],
                        variables=r["vars"], clauses=r["clauses"], solver_queries=r["queries"], solver_s=round(r["solver_s"], 3),
                        wall_s=round(r["wall"], 2), witnesses="%d/%d" % (r["covered"], r["covers"])) for r in sorted(results, key=lambda r: r["name"])],
        obligations=sum(r["checks"] for r in results),
        discharged=sum(r["checks"] - len(r["fails"]) for r in results),
        queries_discharged=sum(r["queries"] for r in results),
        solver_time_s=round(sum(r["solver_s"] for r in results), 3),
        functions_encoded=funs,
        functions_encoded_count=len(funs),
        no_verdict=errors,
        deep_harnesses_not_decided=undecided,
    )
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump(dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other", coverage=cov,
                   assumptions=meta.get("assumptions", []), wall_s=round(time.time() - T0, 2), violations=len(bad)),
              open("%s/evidence/%s.json" % (VERIF, pid), "w"), indent=1)
    for k in knownhit:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for r in bad:
        print("VIOLATION property=%s replay=%s" % (pid, r["bad"]["replay"]))
    if bad:
        return 1
    if errors:
        return 2
    if not results:
        return 2
    log("%s holds: %d checks in %d harnesses%s" % (pid, cov["obligations"], len(results),
        ", %d deep ones not decided" % len(undecided) if undecided else ""))
    return 0


if __name__ == "__main__":
    sys.exit(main())
