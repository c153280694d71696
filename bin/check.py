#!/usr/bin/env python3
"""Decides one property: runs the verifier (Kani) on the contracts of the code in /repo.

usage: check.py <property> [--tier quick|thorough]

Exit 0: every obligation which was decided holds.  Exit 1 and a VIOLATION line: an obligation fails.
Exit 2: nothing could be decided (e.g. /repo does not compile).
"""
import json, os, re, shutil, signal, subprocess, sys, time, glob

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
from props import PROPS, TRUSTED

CRATE = os.path.join(ROOT, "kani")
BUILD = os.path.join(ROOT, ".build")
REPLAY = os.path.join(ROOT, "replay")
BASE_FLAGS = "--cap-lints allow"
KANI_ARGS = ["-Z", "function-contracts", "-Z", "stubbing", "-Z", "unstable-options", "--no-assertion-reach-checks"]
# with access to private state; with contracts only; neither
VARIANTS = [("contracts,state", "--cfg flatdata_contracts --cfg flatdata_contracts_spec --cfg flatdata_contracts_state"),
            ("contracts", "--cfg flatdata_contracts --cfg flatdata_contracts_spec"),
            ("", "--cfg flatdata_contracts")]

START = time.time()


def log(*a):
    print(*a, flush=True)


def run(cmd, flags, timeout, cwd, env_extra=None):
    env = dict(os.environ, RUSTFLAGS=flags, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    env.update(env_extra or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=max(timeout, 1))
        return out.decode("utf8", "replace"), p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return out.decode("utf8", "replace") + "\n<killed: out of time>\n", None


UNDECIDED = re.compile(r"unwinding assertion|recursion unwinding|is not currently supported by Kani|"
                       r"unsupported|loop invariant|call to foreign")


class Harness:
    def __init__(self, name):
        self.name, self.status, self.time = name, "not run", 0.0
        self.total = self.failed = self.unreachable = self.undetermined = 0
        self.covers = self.covered = 0
        self.failures, self.text, self.overflow = [], "", []

    @property
    def discharged(self):
        return self.total - self.failed - self.undetermined if self.status == "ok" else 0


def parse_block(h, text):
    h.text = text
    m = re.search(r"\*\* (\d+) of (\d+) failed(?: \(([^)]*)\))?", text)
    if m:
        h.failed, h.total = int(m.group(1)), int(m.group(2))
        for part in (m.group(3) or "").split(","):
            if "unreachable" in part:
                h.unreachable = int(part.split()[0])
            if "undetermined" in part:
                h.undetermined = int(part.split()[0])
    m = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", text)
    if m:
        h.covered, h.covers = int(m.group(1)), int(m.group(2))
    m = re.search(r"Verification Time: ([\d.]+)s", text)
    if m:
        h.time = float(m.group(1))
    h.failures = []
    for m in re.finditer(r"Failed Checks: (.*(?:\n(?! File:|Failed Checks:|VERIF|\n).*)*)(?:\n File: (.*))?", text):
        h.failures.append((m.group(1).strip(), (m.group(2) or "").strip()))
    if "VERIFICATION:- SUCCESSFUL" in text:
        if "panics as expected" in text:  # what fails are the panics
            h.failed = 0
            h.overflow = [f for f in h.failures if re.match("attempt to .* with overflow", f[0])]
        if h.total == 0:
            h.status = "undecided: no obligation"
        elif h.covered < h.covers:
            h.status = "undecided: a case which has to be reachable is not"
        else:
            h.status = "ok"
    elif "VERIFICATION:- FAILED" in text:
        if "timed out" in text or "CBMC failed" in text or "Out of memory" in text or not m:
            h.status = "undecided: out of time or memory"
        real = [f for f in h.failures if not UNDECIDED.search(f[0])]
        if "encountered no panics" in text:  # neither does the call return
            h.status = "undecided: the call is not reachable"
        if real:
            h.status = "failed"
            h.failures = real
            h.unwound = any("unwinding" in f[0] for f in h.failures)
        elif h.failures:
            h.status = "undecided: " + h.failures[0][0]
        elif not h.status.startswith("undecided"):
            h.status = "undecided"
    else:
        h.status = "undecided: no result"
    h.partial = "unwinding assertion" in text


def parse(out, harnesses):
    current = {}
    blocks = re.split(r"(?m)^(?=Thread \d+:)", out)
    for b in blocks:
        m = re.match(r"Thread (\d+): *Checking harness (\S+?)\.\.\.", b)
        if m:
            current[m.group(1)] = m.group(2)
            h = harnesses.setdefault(m.group(2), Harness(m.group(2)))
            h.status = "undecided: out of time"
            continue
        m = re.match(r"Thread (\d+): *\n", b)
        if m and m.group(1) in current and "VERIFICATION" in b:
            b = b.split("Manual Harness Summary")[0]
            parse_block(harnesses[current.pop(m.group(1))], b)


def compiled(out):
    return not re.search(r"could not compile|Failed to execute cargo|compilation error|error: no harnesses", out)


def list_harnesses(target, newer):
    names = {}
    for f in glob.glob(target + "/**/*fdcontracts*.kani-metadata.json", recursive=True):
        if os.path.getmtime(f) < newer:
            continue
        for p in json.load(open(f)).get("proof_harnesses", []):
            names[p["pretty_name"]] = p
    return names


def run_pass(prop, p, deadline, report):
    """Runs the harnesses of one pass with the first variant which compiles."""
    for variant, cfg in (VARIANTS if not p.get("plain") else VARIANTS[2:]):
        features = ",".join(x for x in [p["feature"], variant] + p.get("features", []) + (["thorough"] if os.environ["VERIF_TIER"] == "thorough" else []) if x)
        flags = " ".join(x for x in [BASE_FLAGS, cfg, p.get("rustflags", "")] if x)
        target = os.path.join(BUILD, prop, p["name"] + "-" + (variant.replace(",", "-") or "plain"))
        os.makedirs(target, exist_ok=True)
        t0 = time.time()
        cmd = ["cargo", "kani", "--target-dir", target, "--features", features] + KANI_ARGS
        for f in p.get("harness", []):
            cmd += ["--harness", f]
        t = p.get("timeout", 300)
        if os.environ.get("VERIF_TIER") == "thorough":
            t *= 12
        budget = deadline - time.time()
        full = cmd + ["--harness-timeout", "%ds" % min(t, max(budget - 15, 5)),
                      "-j", "8", "--output-format", "terse"]
        out, rc = run(full, flags, budget, CRATE)
        ctx = dict(cmd=cmd, flags=flags, features=features, target=target, full=full,
                   replay_flags=p.get("replay_flags", ""))
        if compiled(out):
            hs = {}
            for n in list_harnesses(target, t0 - 1):
                if not p.get("harness") or any(f in n for f in p["harness"]):
                    hs[n] = Harness(n)
            parse(out, hs)
            report["variant"] = variant or "plain"
            return hs, ctx, out
        log("  does not compile with [%s]:" % (variant or "plain"),
            "\n".join(l for l in out.splitlines() if l.startswith("error"))[:600])
    return None, ctx, out


def rerun(h, ctx, deadline, extra):
    cmd = ctx["cmd"] + ["--exact", "--harness", h.name] + extra
    return run(cmd, ctx["flags"], deadline - time.time(), CRATE)


def tests_of(out):
    """Counterexamples (not: witnesses of covers) as printed by the verifier."""
    tests = []
    for t in re.split(r"(?m)^/// Test generated for", out)[1:]:
        kind = re.search(r"(?m)^/// Check for `(\w+)`", t)
        m = re.search(r"(?ms)^\s*#\[test\]\s*fn (kani_concrete_playback_\w+)\(\) \{(.*?)^\s*\}\s*$", t)
        if m and not (kind and kind.group(1) == "cover"):
            tests.append(m.groups() + (t[:t.index("#[test]")],))
    return tests


def publish(source):
    """Makes harnesses callable from other modules."""
    lines, after = source.split("\n"), False
    for i, l in enumerate(lines):
        if l.strip().startswith("#[kani::proof"):
            after = True
        elif after and re.match(r"\s*fn ", l):
            lines[i] = l.replace("fn ", "pub fn ", 1)
            after = False
        elif not l.strip().startswith(("#[", "//")):
            after = False
    return "\n".join(lines)


def native_replay(prop, h, ctx, deadline, f, only=None):
    """Runs the counterexample of the verifier on the compiled code. True iff it fails as well."""
    if replay_one(prop, h, ctx, deadline, f, only):
        return True
    if deadline - time.time() < h.time * 1.5 + 60:
        return False
    cmd = list(ctx["cmd"])
    i = cmd.index("--features") + 1
    cmd[i] += ",small"
    return replay_one(prop, h, dict(ctx, cmd=cmd, features=cmd[i]), deadline, f, only)


def replay_one(prop, h, ctx, deadline, f, only):
    out, _ = rerun(h, ctx, deadline, ["-Z", "concrete-playback", "--concrete-playback=print"])
    f.write("\n## verifier: %s\n%s\n" % (h.name, "\n".join(
        l for l in out.splitlines() if not l.startswith(("warning", "note", " ")))[-12000:]))
    tests = [t for t in tests_of(out) if not only or re.search(only, t[2])]
    if not tests:
        f.write("\nno counterexample was given%s\n" % (" for overflow" if only else ""))
        return False
    d = os.path.join(BUILD, prop, "replay")
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(CRATE, d, ignore=shutil.ignore_patterns("target"))
    for g in glob.glob(os.path.join(d, "src", "*.rs")):
        text = open(g).read()
        open(g, "w").write(publish(text))
    names = []
    with open(os.path.join(d, "src", "replay.rs"), "w") as g:
        for i, (n, b, _) in enumerate(tests[:6]):
            body = re.sub(r"concrete_playback_run\(concrete_vals, *\w+\)",
                          "concrete_playback_run(concrete_vals, crate::%s)" % h.name, b)
            g.write("#[test]\nfn replay_%d() {%s}\n" % (i, body))
            f.write("\n#[test]\nfn replay_%d() {%s}\n" % (i, body))
            names.append("replay_%d" % i)
    with open(os.path.join(d, "src", "lib.rs"), "a") as g:
        g.write("\n#[cfg(test)]\nmod replay;\n")
    flags = " ".join((ctx["flags"] + " " + ctx["replay_flags"] + " -Zsanitizer=address").split())
    good = False
    for n in names:
        if deadline - time.time() < 20 or good:
            break
        out, rc = run(["cargo", "kani", "playback", "-Z", "concrete-playback", "--features", ctx["features"],
                       "--", n],
                      flags, min(deadline - time.time(), 120), d,
                      {"CARGO_TARGET_DIR": os.path.join(BUILD, prop, "replay-target"), "RUST_BACKTRACE": "0",
                       "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:halt_on_error=1"})
        ran = re.search(r"running 1 test", out)
        if "should always hold" in out or "Not enough det vals" in out or "concrete_playback" in out and "det_vals" in out:
            ok = False
        elif not ran or rc is None:
            ok = False
        else:
            panicked = bool(re.search(r"test result: FAILED|panicked at", out))
            crashed = bool(re.search(r"AddressSanitizer|SIGSEGV|SIGABRT|SIGBUS|signal: \d+|process didn't exit", out))
            ok = crashed or (panicked and not h.must_panic)
        f.write("\n## native run of %s: %s\n%s\n" % (n, "fails as well" if ok else "does not fail", out[-5000:]))
        good = good or ok
    return good


def main():
    prop = sys.argv[1]
    if "--tier" in sys.argv:
        os.environ["VERIF_TIER"] = sys.argv[sys.argv.index("--tier") + 1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    os.environ["VERIF_TIER"] = tier
    conf = PROPS[prop]
    limit = 840 if tier == "quick" else 6 * 3600
    end = START + limit
    proof_end = START + (560 if tier == "quick" else 5 * 3600)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    os.makedirs(REPLAY, exist_ok=True)

    known = []
    for line in open(os.path.join(ROOT, "known-findings.txt")):
        m = re.match(r"known: property=(\S+) harness=(\S+) check=(.*?) :: (.*)", line.strip())
        if m and m.group(1) == prop:
            known.append(m.groups())

    passes = [p for p in conf["passes"] if tier == "thorough" or not p.get("thorough")]
    all_h, ctxs, variants, cmds, broken = [], {}, {}, [], []
    for i, p in enumerate(passes):
        rep = {}
        share = proof_end
        hs, ctx, out = run_pass(prop, p, share, rep)
        cmds.append("RUSTFLAGS='%s' %s" % (ctx["flags"], " ".join(ctx["full"])))
        if hs is None:
            log(out[-3000:])
            broken.append(p["name"])
            continue
        variants[p["name"]] = rep["variant"]
        for h in hs.values():
            h.pas = p["name"]
            h.must_panic = bool(re.search(p.get("must_panic", r"panics$"), h.name))
            h.bounded = next((t for r, t in conf.get("bounded", []) if re.search(r, h.name)), None)
            all_h.append(h)
            ctxs[id(h)] = ctx
            # loops that are longer than expected: more iterations, in a run of their own
        for h in hs.values():
            if h.partial_unwinding() and time.time() < proof_end - 30:
                o, _ = rerun(h, ctx, proof_end, ["--unwind", str(p.get("unwind2", 40)), "--output-format", "terse"])
                if "VERIFICATION:-" in o:
                    parse_block(h, o[o.find("VERIFICATION RESULT"):])

    violations, lines = [], []
    for h in all_h:
        log("  %-55s %-10s %5d obligations %7.1f s %s" % (
            h.pas + " " + h.name, h.status if h.status in ("ok", "failed") else "UNDECIDED", h.total, h.time,
            "" if h.status == "ok" else "| " + (h.status if h.status != "failed" else "; ".join(
                a + " @ " + b for a, b in h.failures)[:300])))
    failed = [h for h in all_h if h.status == "failed"]
    # cheap ones first
    failed.sort(key=lambda h: h.time)
    reproduced = False
    for h in failed:
        k = [x for x in known if x[1] == h.name and all(re.search(x[2], f[0]) for f in h.failures)]
        if k:
            log("KNOWN-FINDING: property=%s %s" % (prop, k[0][3]))
            continue
        path = os.path.join(REPLAY, "%s-%s.txt" % (prop, h.name.replace("::", ".")))
        with open(path, "w") as f:
            f.write("property %s\nobligations which fail in harness %s:\n" % (prop, h.name))
            for a, b in h.failures:
                f.write("  %s\n    at %s\n" % (a, b))
            f.write("\nreproduce: cd %s && RUSTFLAGS='%s' %s --exact --harness %s\n" % (
                CRATE, ctxs[id(h)]["flags"], " ".join(ctxs[id(h)]["cmd"]), h.name))
            f.write("\n" + h.text + "\n")
            ok = False
            if not reproduced and end - time.time() > h.time * 1.5 + 30:
                try:
                    ok = native_replay(prop, h, ctxs[id(h)], end, f)
                except Exception as e:  # the verdict of the verifier stands
                    f.write("\nreplay failed: %r\n" % e)
        if not ok and h.partial:
            # the trace might rely on a loop which was cut off
            h.status = "undecided: unwinding"
            continue
        reproduced = reproduced or ok
        violations.append((h, path, ok))
    # calls which panic because arithmetic is checked only: executed without the check
    for h in all_h:
        if h.overflow and not reproduced and end - time.time() > h.time * 1.5 + 60:
            path = os.path.join(REPLAY, "%s-%s.txt" % (prop, h.name.replace("::", ".")))
            with open(path, "w") as f:
                f.write("property %s\nharness %s panics because of checks for overflow:\n" % (prop, h.name))
                for a, b in h.overflow:
                    f.write("  %s\n    at %s\n" % (a, b))
                ok = native_replay(prop, h, ctxs[id(h)], end, f, "with overflow")
            if ok:
                h.status, h.failures, reproduced = "failed", h.overflow, True
                violations.append((h, path, True))
            else:
                os.remove(path)

    # the one which was replayed on the compiled code comes first
    violations.sort(key=lambda v: not v[2])
    if any(v[2] for v in violations):
        violations = [v for v in violations if v[2]] + [v for v in violations if not v[2]]

    total = sum(h.total for h in all_h)
    discharged = sum(h.discharged for h in all_h)
    undecided = [h for h in all_h if h.status.startswith("undecided") or h.status == "not run"]
    proved = [h for h in all_h if h.status == "ok"]
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": conf.get("level", "proof"),
        "coverage": {
            "obligations": total, "discharged": discharged,
            "checker_cmd": " ; ".join(cmds),
            "trusted_base": TRUSTED + conf.get("trusted", []),
            "back_end": "Kani 0.68.0 / CBMC 6.11.0, SAT solver CaDiCaL (bundled)",
            "functions_under_contract": conf["functions"],
            "harnesses_proved": [h.name for h in proved if not h.bounded],
            "harnesses_bounded": ["%s: %s" % (h.name, h.bounded) for h in proved if h.bounded],
            "harnesses_undecided": ["%s: %s" % (h.name, h.status) for h in undecided],
            
            "reachability_covers": "%d of %d satisfied" % (sum(h.covered for h in all_h), sum(h.covers for h in all_h)),
            "solver_seconds": round(sum(h.time for h in all_h), 1),
            "per_harness": {h.pas + ":" + h.name: {"obligations": h.total, "status": h.status, "seconds": round(h.time, 2)}
                            for h in all_h},
            "variants": variants,
        },
        "assumptions": conf.get("assumptions", []),
        "wall_s": round(time.time() - START, 1),
        "violations": len(violations),
    }
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(os.path.join(BUILD, prop, "replay"), ignore_errors=True)

    for h in undecided:
        log("UNDECIDED property=%s harness=%s %s" % (prop, h.name, h.status))
    if violations:
        h, path, ok = violations[0]
        for h2, p2, _ in violations[1:]:
            log("also fails: %s (%s)" % (h2.name, p2))
        log("VIOLATION property=%s replay=%s%s" % (prop, path, "" if ok else " no-failing-input-found"))
        return 1
    if not proved or broken:
        log("ERROR property=%s nothing was decided: %s" % (prop, ", ".join(broken) or "no obligation discharged"))
        return 2
    log("property %s: %d of %d obligations discharged in %d harnesses, %.0f s" % (
        prop, discharged, total, len(proved), time.time() - START))
    return 0


Harness.partial = False
Harness.partial_unwinding = lambda self: "unwinding" in self.status or self.status == "failed" and self.partial

if __name__ == "__main__":
    sys.exit(main())
