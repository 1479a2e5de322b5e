#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]  -- decide one property by running the monitors against /repo's working tree.

exit 0  the property held on everything observed (known findings are printed as KNOWN-FINDING lines)
exit 1  a violation was observed:  VIOLATION property=<id> replay=<path>
exit 2  no verdict (build failure, wall-clock watchdog, a process ended from outside, nothing observed)

check.py PROPERTY replay FILE   re-runs the single case recorded in a replay file.
"""
import json, os, subprocess, sys, time, fcntl, shutil, signal, hashlib, re
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent
sys.path.insert(0, str(VERIF))
from tools.config import PROPS, ASSUME  # noqa: E402

REPO = Path("/repo")
BUILD = VERIF / ".build"
TRIPLE = "x86_64-unknown-linux-gnu"


def log(*a):
    print(*a, flush=True)


def base_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST", "VERIF_", "ASAN", "TSAN", "MIRI"))}
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUSTUP_TOOLCHAIN="nightly-2026-02-15", CARGO_INCREMENTAL="0")
    return e


class NoVerdict(Exception):
    pass


class Refused(Exception):
    """The macros under test do not expand calls written by their documented grammar."""


def run_build(cmd, env, cwd, what, timeout=800):
    BUILD.mkdir(exist_ok=True)
    t = time.time()
    lock = open(BUILD / (what.replace("/", "_") + ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise NoVerdict(f"building {what} exceeded its wall-clock limit")
    finally:
        lock.close()
    if p.returncode:
        log(p.stdout[-6000:])
        x = NoVerdict(f"building {what} failed")
        x.output = p.stdout
        raise x
    log(f"[build] {what}: {time.time() - t:.0f} s")


def sync_shadow(name):
    """A copy of the repository's crates that newer compilers accept (one renamed unstable feature attribute), for Miri and TSan."""
    sh = BUILD / "shadow" / name
    sh.mkdir(parents=True, exist_ok=True)
    want = {}
    crates = SHADOW_CRATES[name]
    for c in crates:
        for f in (REPO / "projects" / c).rglob("*"):
            if f.is_file() and "target" not in f.parts and (f.suffix in (".rs", ".toml", ".md", ".json")):
                want[Path("projects") / f.relative_to(REPO / "projects")] = f
    cargo = (REPO / "Cargo.toml").read_text()
    cargo = re.sub(r"members\s*=\s*\[[^\]]*\]", "members = [\"projects/*\"]", cargo, count=1)
    texts = {Path("Cargo.toml"): cargo}
    for r, f in want.items():
        s = f.read_text()
        if f.name == "Cargo.toml":
            s = s.replace('"../../examples', '"' + str(REPO / "examples"))
        if f.suffix == ".rs":
            s = s.replace("feature(lazy_type_alias)", "feature(checked_type_aliases)").replace("lazy_type_alias", "checked_type_aliases")
        texts[r] = s
    for p in list(sh.rglob("*")):
        if p.is_file() and p.relative_to(sh) not in texts and "target" not in p.parts and p.name != "Cargo.lock":
            p.unlink()
    for r, s in texts.items():
        d = sh / r
        d.parent.mkdir(parents=True, exist_ok=True)
        if not d.exists() or d.read_text() != s:
            d.write_text(s)
    return sh


SHADOW_CRATES = {"core": ["oak-core", "oak-macros"]}


def sync_crate(crate, shadow_root, dst):
    """A copy of a harness crate whose path dependencies point into the shadow."""
    src = VERIF / "harness"
    for c in (crate, "common"):
        for f in (src / c).rglob("*"):
            if f.is_file() and "target" not in f.parts:
                s = f.read_text()
                if f.name == "Cargo.toml":
                    s = s.replace("/repo/projects/", str(shadow_root) + "/projects/")
                d = dst / c / f.relative_to(src / c)
                d.parent.mkdir(parents=True, exist_ok=True)
                if not d.exists() or d.read_text() != s:
                    d.write_text(s)
    return dst / crate


def build(crate, variant):
    """Returns (argv prefix, extra environment) to run the built harness."""
    e = base_env()
    cwd = VERIF / "harness" / crate
    fresh = ["-Zchecksum-freshness"]
    if variant == "native":
        e["CARGO_TARGET_DIR"] = str(BUILD / "dbg")
        cmd = ["cargo", "build", "--offline", *fresh]
        try:
            run_build(cmd, e, cwd, f"{crate}-native")
        except NoVerdict as x:
            out = getattr(x, "output", "")
            if crate != "hmac" or "could not compile `hmac`" not in out:
                raise
            # the same crate without its macro calls: if that builds, it is the calls that are refused
            run_build([*cmd, "--no-default-features"], e, cwd, "hmac-without-calls")
            raise Refused("\n".join(re.findall(r"^error.*\n(?:.*\n){0,6}", out, re.M)[:5]))
        return [str(BUILD / "dbg" / "debug" / crate)], {}
    if variant == "asan":
        e["CARGO_TARGET_DIR"] = str(BUILD / "asan")
        e["RUSTFLAGS"] = "-Zsanitizer=address"
        run_build(["cargo", "build", "--offline", "--target", TRIPLE, *fresh], e, cwd, f"{crate}-asan")
        return [str(BUILD / "asan" / TRIPLE / "debug" / crate)], {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=0:detect_stack_use_after_return=0:quarantine_size_mb=64"}
    sh = sync_shadow("core")
    ws = BUILD / "shadow-harness"
    cr = sync_crate(crate, sh, ws)
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    if variant == "tsan":
        e["CARGO_TARGET_DIR"] = str(BUILD / "tsan")
        e["RUSTFLAGS"] = "-Zsanitizer=thread"
        run_build(["cargo", "build", "--offline", "-Zbuild-std", "--target", TRIPLE, *fresh], e, cr, f"{crate}-tsan", 500)
        return [str(BUILD / "tsan" / TRIPLE / "debug" / crate)], {"TSAN_OPTIONS": f"suppressions={VERIF}/tools/tsan.supp:halt_on_error=1:abort_on_error=0:exitcode=66:second_deadlock_stack=1"}
    if variant == "miri":
        e["CARGO_TARGET_DIR"] = str(BUILD / "miri")
        run_build(["cargo", "miri", "setup"], e, cr, "miri-sysroot", 600)
        # build once (a no-op property), so that the shards below only interpret
        e2 = dict(e, MIRIFLAGS="-Zmiri-disable-isolation")
        run_build(["cargo", "miri", "run", "--offline", "-q", "--", "noop"], e2, cr, f"{crate}-miri", 600)
        x = {k: e[k] for k in ("RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR")}
        x["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-permissive-provenance -Zmiri-ignore-leaks"
        x["__cwd"] = str(cr)
        return ["cargo", "miri", "run", "--offline", "-q", "--"], x
    raise SystemExit(f"unknown variant {variant}")


def crash_sig(rc, err):
    m = re.search(r"AddressSanitizer: ([\w-]+)", err)
    if m and m.group(1) not in ("CHECK", "failed"):
        if m.group(1) == "ABRT":
            return "abort"
        return "asan " + m.group(1)
    if "ThreadSanitizer: data race" in err:
        return "tsan data race"
    m = re.search(r"ThreadSanitizer: ([\w -]+)", err)
    if m and rc == 66:
        return "tsan " + m.group(1).strip()
    m = re.search(r"Undefined Behavior: (.*)", err)
    if m:
        return "miri undefined behavior"
    if "VERIF-HANG" in err:
        return "hang"
    if "VERIF-OOM" in err:
        return "runaway allocation"
    if "has overflowed its stack" in err:
        return "stack overflow"
    if "panic in a function that cannot unwind" in err or "panicked while processing panic" in err or "panic in a destructor" in err:
        return "abort in a panic"
    if rc in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGABRT, -signal.SIGILL, -signal.SIGTRAP, -signal.SIGFPE):
        return "fatal signal " + signal.Signals(-rc).name
    return None


def shard_run(pid, tier, seed, plan, k, argv, extra, workdir, only=None):
    tag = f"{plan['variant']}-{k}" if only is None else f"{plan['variant']}-only"
    out, prog = workdir / f"{tag}.json", workdir / f"{tag}.progress"
    for f in (out, prog):
        if f.exists():
            f.unlink()
    e = base_env()
    cwd = None
    for a, b in extra.items():
        if a == "__cwd":
            cwd = b
        else:
            e[a] = b
    e.update(VERIF_TIER=tier, VERIF_SEED=str(seed), VERIF_SHARD=str(k), VERIF_NSHARDS=str(plan["shards"]), VERIF_OUT=str(out), VERIF_PROGRESS=str(prog),
             VERIF_SCALE=str(plan["scale"]), VERIF_DEADLINE_S=str(plan["deadline"]), VERIF_HANG_S=str(plan["hang"]), VERIF_VARIANT=plan["variant"], VERIF_SCRATCH=str(workdir))
    if plan["variant"] == "miri":
        e["VERIF_TRACE"] = "1"
    if only:
        e["VERIF_ONLY"] = only
    err = workdir / f"{tag}.stderr"
    with open(err, "wb") as ef:
        p = subprocess.Popen(argv + [pid], env=e, cwd=cwd, stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, start_new_session=True)
        try:
            rc = p.wait(timeout=plan["wall"])
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    txt = err.read_bytes()[-400000:].decode("utf8", "replace")
    res = None
    if out.exists():
        try:
            res = json.loads(out.read_text())
        except Exception:
            res = None
    where = ("", "", "")
    if prog.exists():
        parts = prog.read_bytes().decode("utf8", "replace").split("\n", 2)
        where = tuple((parts + ["", "", ""])[:3])
    if plan["variant"] == "miri" and not where[0]:
        c = re.findall(r"^CASE (\S+)\n(\d+)", txt, re.M)
        if c:
            where = (c[-1][0], c[-1][1], "")
    return dict(rc=rc, err=txt, res=res, where=where)


def load_known(pid):
    """[{property, signature, input?, what}] for open findings; fixed entries suppress nothing."""
    f = VERIF / "known_findings.json"
    if not f.exists():
        return []
    return [x for x in json.loads(f.read_text())["findings"] if x["property"] == pid]


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    prop = PROPS[pid]
    replay = None
    if tier == "replay":
        replay = json.loads(Path(sys.argv[3]).read_text())
        tier, seed = replay["tier"], replay["seed"]
    t0 = time.time()
    work = BUILD / "run" / f"{pid}-{os.getpid()}"
    work.mkdir(parents=True, exist_ok=True)
    try:
        rc = decide(pid, prop, tier, seed, work, t0, replay)
    except NoVerdict as x:
        log(f"NO VERDICT property={pid}: {x}")
        rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def decide(pid, prop, tier, seed, work, t0, replay):
    plans = []
    for v in prop[tier if tier in prop else "quick"]:
        p = dict(variant="native", shards=8, scale=1.0, deadline=240 if tier == "quick" else 600, wall=420 if tier == "quick" else 780, hang=40, optional=False)
        p.update(v)
        if p["variant"] == "asan":
            p["hang"] *= 4
        if p["variant"] in ("tsan", "miri"):
            p["hang"] = 100000
            p["optional"] = True
        if p["variant"] == "miri":
            p.update(deadline=180, wall=330)
        plans.append(p)
    if replay:
        plans = [p for p in plans if p["variant"] == replay["variant"]] or [dict(plans[0], variant=replay["variant"])]
    viol, notes, per_variant = [], [], {}
    counters, families, samples, distinct, cases = {}, {}, [], set(), set()
    evaluations, truncated, decided = 0, 0, 0
    for plan in plans:
        try:
            argv, extra = build(prop["crate"], plan["variant"])
        except NoVerdict as x:
            if plan["optional"]:
                log(f"[skip] {plan['variant']}: {x}")
                notes.append(f"{plan['variant']} build not available in this sandbox: {x}")
                continue
            raise
        except Refused as x:
            viol.append(dict(family="expansion", index=0, sig="a macro call is refused", detail=str(x), input="harness/hmac/src/mac.rs and mac_cases.rs", variant=plan["variant"]))
            continue
        ts = time.time()
        if replay:
            results = [shard_run(pid, tier, seed, dict(plan, shards=1), 0, argv, extra, work, f"{replay['family']}:{replay['index']}")]
        else:
            with ThreadPoolExecutor(8) as ex:
                results = list(ex.map(lambda k: shard_run(pid, tier, seed, plan, k, argv, extra, work), range(plan["shards"])))
        ev = 0
        for k, r in enumerate(results):
            if r["res"] is not None and r["rc"] in (0, 1):
                x = r["res"]
                ev += x["evaluations"]
                truncated += bool(x["truncated"])
                for a, b in x["counters"].items():
                    counters[a] = counters.get(a, 0) + b
                for a, b in x["families"].items():
                    families[a] = families.get(a, 0) + b
                samples += x["samples"]
                distinct.update(x["distinct"])
                cases.update(x["cases"])
                for v in x["violations"]:
                    viol.append(dict(v, variant=plan["variant"]))
                decided += 1
                continue
            if r["rc"] is None and plan["optional"]:
                notes.append(f"{plan['variant']} shard {k} was stopped at its wall-clock limit ({plan['wall']} s)")
                continue
            if r["rc"] is None:
                raise NoVerdict(f"{plan['variant']} shard {k} exceeded the wall-clock watchdog ({plan['wall']} s) in case {r['where'][:2]}")
            sig = crash_sig(r["rc"], r["err"])
            if sig is None:
                log(r["err"][-3000:])
                raise NoVerdict(f"{plan['variant']} shard {k} ended with status {r['rc']} and no report")
            fam, idx, inp = r["where"]
            if sig in ("hang", "runaway allocation") and not replay:
                # decided on one case's own CPU time / live bytes; confirm on that case alone before calling it a violation
                again = shard_run(pid, tier, seed, dict(plan, shards=1), 0, argv, extra, work, f"{fam}:{idx}")
                if crash_sig(again["rc"] if again["rc"] is not None else 0, again["err"]) is None and not (again["res"] and again["res"]["violations"]):
                    raise NoVerdict(f"{sig} in {fam}:{idx} did not reproduce on its own")
            viol.append(dict(family=fam, index=int(idx or 0), sig=sig, detail=tail_of(r["err"]), input=inp[:20000], variant=plan["variant"]))
            decided += 1
        evaluations += ev
        per_variant[plan["variant"]] = dict(cases=ev, shards=plan["shards"], wall_s=round(time.time() - ts, 1))
    known = load_known(pid)
    new, seen_known = [], {}
    for v in viol:
        k = next((x for x in known if x["signature"] == v["sig"] and (not x.get("input") or x["input"] == v["input"])), None)
        if k:
            seen_known[k["signature"] + k.get("input", "")] = k
        else:
            new.append(v)
    if not replay:
        for k in known:
            log(f"KNOWN-FINDING: property={pid} {k['signature']} — {k['what']}")
    wall = time.time() - t0
    ev = dict(
        property=pid, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=evaluations, distinct_nontrivial=len(cases), distinct_states_observed=len(distinct), rule=prop["rule"],
            samples=[f"{s['family']}: {s['input']}" for s in samples[:10]] or ["(none)"],
            observed=dict(sorted(counters.items())), cases_per_family=dict(sorted(families.items())), builds=per_variant,
            shards_stopped_at_deadline=truncated, notes=notes, known_findings_reproduced=len(seen_known),
        ),
        assumptions=ASSUME + prop.get("assume", []), wall_s=round(wall, 1), violations=len(new))
    if not replay:
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1, ensure_ascii=False) + "\n")
    if new:
        d = BUILD / "replay"
        d.mkdir(parents=True, exist_ok=True)
        done = set()
        for v in new:
            key = v["sig"]
            if key in done:
                continue
            done.add(key)
            h = hashlib.sha1(f"{v['family']}:{v['index']}:{v['sig']}:{seed}".encode()).hexdigest()[:8]
            p = d / f"{pid}-{h}.json"
            p.write_text(json.dumps(dict(v, property=pid, tier=tier, seed=seed, how=f"cd /verif && ./check.py {pid} replay {p}"), indent=1, ensure_ascii=False))
            log(f"  {v['sig']}  [{v['variant']} {v['family']}:{v['index']}]")
            log("    " + v["detail"][:1200].replace("\n", "\n    "))
            log("    input: " + repr(v["input"][:600]))
            log(f"VIOLATION property={pid} replay={p}")
        return 1
    if replay and replay["family"] == "expansion":
        log(f"OK property={pid}: every macro call expands")
        return 0
    if decided == 0 or evaluations == 0 or (not distinct and not replay):
        raise NoVerdict("nothing was observed")
    log(f"OK property={pid} tier={tier} seed={seed} evaluations={evaluations} distinct={len(cases)} states={len(distinct)} builds={json.dumps(per_variant)} wall={wall:.0f}s")
    return 0


def tail_of(err):
    m = re.search(r"(ERROR: AddressSanitizer|WARNING: ThreadSanitizer|Undefined Behavior|VERIF-HANG|VERIF-OOM|overflowed its stack)", err)
    return err[m.start():m.start() + 3500] if m else err[-2500:]


if __name__ == "__main__":
    main()
