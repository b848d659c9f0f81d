#!/usr/bin/env python3
"""Build the monitored programs from /repo's working tree, run the workload of a
property under its monitors, judge what they saw, and write the evidence.

    check.py ID [--thorough]      decide a property
    check.py --setup              build everything
    check.py --replay FILE        run a recorded violation again

Exit codes: 0 held on everything explored, 1 violated (with a VIOLATION line),
3 inconclusive (with a line that says why).
"""

import fcntl
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
WORK = os.path.join(HERE, ".work")
HARNESS = os.path.join(HERE, "harness")
EVIDENCE = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(WORK, "replays")
SHARDS = 8
# For how many seconds the other runs go on when one has seen a violation.
GRACE = 60
# How many times the cases of the quick tier are run, where not six times.
QUICK = {"A01": 3, "M01": 1}

RUNAWAY, HARNESS_FAILED, EXCESS, ASAN, MEMCHECK = 41, 42, 43, 44, 45

STARTED = time.time()


class Inconclusive(Exception):
    pass


def log(text):
    print(f"[{time.time() - STARTED:6.1f}s] {text}", flush=True)


# ---------------------------------------------------------------- environment


def environment(**more):
    env = {
        k: v
        for k, v in os.environ.items()
        if not k.startswith(("RUST", "CARGO", "LLVM_", "ASAN_", "LSAN_", "MIRI", "VALGRIND"))
    }
    env["HOME"] = "/root" if os.path.isdir("/root/.cargo") else os.environ.get("HOME", "/root")
    path = env.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    env["PATH"] = env["HOME"] + "/.cargo/bin:" + path
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    # The counters of the checked build are read in memory and never written.
    env["LLVM_PROFILE_FILE"] = "/dev/null"
    env["VH_CORPUS"] = os.path.join(HERE, "corpus")
    env.update(more)
    return env


def fingerprint():
    """What the build depends on. Cargo goes by the times of files, which a copy
    or a checkout may set back."""
    digest = hashlib.sha256()
    for root in (REPO, HARNESS):
        names = []
        for folder, folders, files in os.walk(root):
            folders[:] = sorted(
                f for f in folders if f not in (".git", "target", ".work", "tests", "benches")
            )
            names += [os.path.join(folder, f) for f in files if f.endswith((".rs", ".toml", ".lock"))]
        for name in sorted(names):
            digest.update(name.encode() + b"\0")
            with open(name, "rb") as file:
                digest.update(hashlib.sha256(file.read()).digest())
    return digest.hexdigest()[:16]


# ---------------------------------------------------------------------- build

# The name of the program, how to make it, and where it ends up.
VARIANTS = {
    "checked": dict(
        flags="-Cinstrument-coverage --cfg vh_cov", cargo=["cargo", "build"], profile="checked"
    ),
    "release": dict(flags="", cargo=["cargo", "build"], profile="release"),
    "asan": dict(
        flags="-Zsanitizer=address -Cforce-frame-pointers=yes",
        cargo=["cargo", "+nightly", "build", "--target", "x86_64-unknown-linux-gnu"],
        profile="asan",
    ),
    "miri": dict(flags="", cargo=None, profile=None),
}

MIRIFLAGS = "-Zmiri-disable-isolation"


def build(variants):
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        key = fingerprint()
        base = os.path.join(WORK, "build-" + key)
        os.makedirs(base, exist_ok=True)
        os.utime(base)
        old = sorted(
            (n for n in os.listdir(WORK) if n.startswith("build-") and n != "build-" + key),
            key=lambda n: os.stat(os.path.join(WORK, n)).st_mtime,
        )
        for name in old[:-2]:
            shutil.rmtree(os.path.join(WORK, name), ignore_errors=True)
        failures = []

        def one(variant):
            made, why = build_one(variant, os.path.join(base, variant))
            if not made:
                failures.append(f"{variant}: {why}")

        threads = [threading.Thread(target=one, args=(v,)) for v in variants]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        if failures:
            raise Inconclusive("cannot build " + "; ".join(failures)[-3000:])
    return {v: program(v, os.path.join(base, v)) for v in variants}


def program(variant, folder):
    if variant == "miri":
        return folder
    if variant == "asan":
        return os.path.join(folder, "x86_64-unknown-linux-gnu", "asan", "vh")
    return os.path.join(folder, VARIANTS[variant]["profile"], "vh")


def build_one(variant, folder):
    row = VARIANTS[variant]
    if variant == "miri":
        # Building means running; this runs next to nothing.
        command = ["cargo", "+nightly", "miri", "run", "--offline", "--"]
        command += ["--property", "M01", "--small", "--only", "tables#0"]
        env = environment(CARGO_TARGET_DIR=folder, MIRIFLAGS=MIRIFLAGS)
    else:
        command = row["cargo"] + ["--offline", "--profile", row["profile"]]
        env = environment(CARGO_TARGET_DIR=folder)
        if row["flags"]:
            env["RUSTFLAGS"] = row["flags"]
    for attempt in range(2):
        done = subprocess.run(
            command,
            cwd=HARNESS,
            env=env,
            stdin=subprocess.DEVNULL,
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            text=True,
        )
        if variant == "miri" and "Undefined Behavior" in done.stdout:
            # It was built; the run proper will see this again and tell.
            return True, ""
        if done.returncode == 0:
            return True, ""
    return False, done.stdout[-1500:]


# ------------------------------------------------------------------------ run


class Job:
    def __init__(self, variant, shard, command, env, folder, limit):
        self.variant, self.shard, self.command = variant, shard, command
        self.env, self.folder, self.limit = env, folder, limit
        self.report = None
        self.code = None
        self.late = False
        self.output = ""
        self.recorder = None

    def path(self, name):
        return os.path.join(self.folder, f"{self.variant}-{self.shard}.{name}")

    def run(self, stop):
        with open(self.path("log"), "w") as out:
            process = subprocess.Popen(
                self.command,
                cwd=HARNESS,
                env=self.env,
                stdin=subprocess.DEVNULL,
                stdout=out,
                stderr=subprocess.STDOUT,
                start_new_session=True,
            )
            end = time.time() + self.limit
            while self.code is None:
                try:
                    self.code = process.wait(1)
                except subprocess.TimeoutExpired:
                    if time.time() < min(end, stop.at):
                        continue
                    self.late = True
                    os.killpg(process.pid, signal.SIGKILL)
                    self.code = process.wait()
        with open(self.path("log"), errors="replace") as file:
            self.output = file.read()[-20000:]
        try:
            with open(self.path("json")) as file:
                self.report = json.load(file)
        except (OSError, ValueError):
            self.report = None

    def record(self):
        """What the flight recorder holds: the phase, the case, and its input."""
        try:
            with open(self.path("rec"), "rb") as file:
                data = file.read()
            n = int.from_bytes(data[8:12], "little")
            m = int.from_bytes(data[16:20], "little")
            return data[:1].decode(), data[64 : 64 + n].decode(), data[4096 : 4096 + m]
        except (OSError, ValueError):
            return "", "", b""


class Stop:
    """When the runs have to be over: when there is no time left for an answer, or
    shortly after one of them has seen a violation."""

    def __init__(self, prop, tier):
        self.listed = known(prop)
        self.at = STARTED + 780 if tier == "quick" else float("inf")

    def look(self, job):
        if any(v["signature"] not in self.listed for v in verdicts([job])[0]):
            self.at = min(self.at, time.time() + GRACE)


def in_parallel(jobs, width, stop):
    queue = list(jobs)
    lock = threading.Lock()

    def worker():
        while True:
            with lock:
                if not queue:
                    return
                job = queue.pop(0)
            if time.time() < stop.at:
                job.run(stop)
                stop.look(job)
            else:
                job.late = True

    threads = [threading.Thread(target=worker) for _ in range(width)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()


def arguments(prop, tier, seed, shard, shards, scale, cap):
    line = ["--property", prop, "--seed", str(seed), "--shard", str(shard)]
    line += ["--shards", str(shards), "--scale", str(scale), "--cap", str(cap)]
    if tier == "thorough":
        line.append("--thorough")
    return line


def native(prop, tier, seed, variant, binary, folder, scale, cap, prefix=(), env=None, more=()):
    jobs = []
    for shard in range(SHARDS):
        job = Job(variant, shard, None, env or environment(), folder, 2 * cap + 150)
        job.command = list(prefix) + [binary]
        job.command += arguments(prop, tier, seed, shard, SHARDS, scale, cap)
        job.command += ["--recorder", job.path("rec"), "--out", job.path("json")]
        job.command += ["--distinct", job.path("distinct")]
        if prop in ("A05", "B07"):
            job.command += ["--digests", job.path("digests")]
        job.command += list(more)
        jobs.append(job)
    return jobs


def number(seed):
    try:
        return int(seed) & 0xFFFFFFFFFFFFFFFF
    except ValueError:
        return int.from_bytes(hashlib.sha256(seed.encode()).digest()[:8], "little")


# --------------------------------------------------------------------- verdict


def generic(text):
    return re.sub(r"\d+", "#", text)[:160]


def verdicts(jobs):
    """The violations that the runs show, and the reasons not to believe a run."""
    violations, doubts = [], []
    for job in jobs:
        where = f"{job.variant} shard {job.shard}"
        if job.report is not None:
            for v in job.report["violations"]:
                violations.append(dict(v, variant=job.variant))
            if job.code == 0:
                continue
        phase, case, data = job.record()
        kind, _, index = case.rpartition("#")
        crash = dict(
            variant=job.variant,
            kind=kind,
            index=int(index) if index.isdigit() else 0,
            input=data[:65536].hex(),
        )
        if job.late and job.variant == "miri":
            log(f"{where}: stopped by the clock, and not counted")
        elif job.late:
            doubts.append(f"{where}: out of time in {case or 'no case'} (phase {phase or '-'})")
        elif job.code == RUNAWAY:
            crash.update(signature="runs on", detail=job.output[-300:])
            violations.append(crash)
        elif job.code == EXCESS:
            crash.update(signature="excess memory", detail="a single call asked for over 2 GiB")
            violations.append(crash)
        elif job.variant == "asan" and "AddressSanitizer" in job.output:
            found = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", job.output)
            what = found.group(1) if found else "report"
            if what in ("out-of-memory", "allocation-size-too-big") or phase != "T":
                doubts.append(f"{where}: {what} in phase {phase}")
            else:
                crash.update(signature=f"AddressSanitizer: {what}", detail=job.output[-3000:])
                violations.append(crash)
        elif job.variant == "asan" and "LeakSanitizer: detected memory leaks" in job.output:
            crash.update(signature="LeakSanitizer: a leak", detail=job.output[-3000:])
            violations.append(crash)
        elif job.variant == "asan" and job.report is not None and "fatal error" in job.output:
            # LeakSanitizer may be kept from stopping threads; Memcheck also looks for leaks.
            log(f"{where}: leaks could not be looked for")
        elif job.variant == "memcheck" and "nhandled instruction" in job.output:
            log(f"{where}: Memcheck does not know an instruction of this processor")
        elif job.code == MEMCHECK:
            # Memcheck reports go on until the end, so only their stacks tell.
            crash.update(signature="Memcheck: " + memcheck(job.output), detail=job.output[-3000:])
            violations.append(crash)
        elif job.variant == "miri" and "Undefined Behavior" in job.output:
            found = re.search(r"Undefined Behavior: ([^\n]*)", job.output)
            crash.update(
                signature="Miri: " + generic(found.group(1) if found else ""),
                detail=job.output[:4000],
            )
            violations.append(crash)
        elif job.variant == "miri" and "memory leaked" in job.output:
            crash.update(signature="Miri: a leak", detail=job.output[:4000])
            violations.append(crash)
        elif job.code is not None and job.code < 0 and -job.code in (
            signal.SIGSEGV,
            signal.SIGABRT,
            signal.SIGBUS,
            signal.SIGILL,
            signal.SIGFPE,
            signal.SIGTRAP,
        ):
            name = signal.Signals(-job.code).name
            if phase == "T":
                crash.update(
                    signature=f"crash: {name} in {kind}",
                    detail=f"{name} in {case}: {job.output[-600:]}",
                )
                violations.append(crash)
            else:
                doubts.append(f"{where}: {name} outside of the code under test, in {case}")
        else:
            doubts.append(f"{where}: ended with {job.code} in {case}: {job.output[-600:]}")
    return violations, doubts


def memcheck(text):
    for line in text.splitlines():
        found = re.match(r"==\d+== ([A-Z0-9][^:]*)", line)
        if found:
            return generic(found.group(1))
    return "a report"


def same_digests(jobs):
    """What every case came to in the checked build and in the release build."""
    violations, compared = [], 0
    by = {(j.variant, j.shard): j for j in jobs}
    for shard in range(SHARDS):
        tables = []
        for variant in ("checked", "release"):
            try:
                with open(by[variant, shard].path("digests")) as file:
                    tables.append(dict(l.rstrip("\n").rsplit(" ", 1) for l in file))
            except (OSError, KeyError):
                tables.append({})
        for case, digest in tables[0].items():
            if case not in tables[1]:
                continue
            compared += 1
            if tables[1][case] != digest:
                kind, _, index = case.rpartition("#")
                violations.append(
                    dict(
                        signature=f"builds disagree: {kind}",
                        detail=f"{case} comes to {digest} with run-time checks, {tables[1][case]} without",
                        kind=kind,
                        index=int(index),
                        input="",
                        variant="checked and release",
                    )
                )
                break
    return violations, compared


# Instructions per unit that are too many, ten times as many as any needs, and
# how much faster the cost may grow at large sizes than at small ones.
INSTRUCTIONS, FASTER, MORE = 200_000, 2.5, 60


def grown(jobs):
    """The growth of the instructions that Callgrind has counted: from one size
    to the next, by the difference in size."""
    violations, lines, seen = [], {}, 0
    for job in jobs:
        if job.variant != "callgrind":
            continue
        costs = {}
        try:
            with open(job.path("digests")) as file:
                notes = file.read().splitlines()
            for k, note in enumerate(notes):
                family, size, _, name = note.split(" ", 3)
                with open(job.path(f"cg.{k + 1}"), errors="replace") as file:
                    total = next(l for l in file if l.startswith("summary:"))
                costs.setdefault((int(family), name), []).append((int(size), int(total.split()[1])))
        except (OSError, ValueError, StopIteration) as error:
            log(f"callgrind shard {job.shard}: {error!r}")
            continue
        for (family, name), rows in sorted(costs.items()):
            slopes = [(b[1] - a[1]) / (b[0] - a[0]) for a, b in zip(rows, rows[1:])]
            if len(slopes) < 2:
                continue
            seen += len(rows)
            lines[name] = [round(x, 1) for x in slopes]
            if slopes[-1] > FASTER * max(slopes[0], 0) + MORE or slopes[-1] > INSTRUCTIONS:
                violations.append(
                    dict(
                        signature=f"growth: {name}",
                        detail=f"(size, instructions) {rows}: each {slopes[0]:.1f}, then {slopes[-1]:.1f}",
                        kind="growth",
                        index=family,
                        input=name.encode().hex(),
                        variant="callgrind",
                    )
                )
    return violations, lines, seen


def callgrind(tier, seed, binary, folder, cap):
    jobs = native(
        "A05",
        tier,
        seed,
        "callgrind",
        binary,
        folder,
        1,
        cap,
        prefix=[
            "valgrind",
            "--tool=callgrind",
            "--toggle-collect=vh_work",
            "--dump-after=vh_work",
        ],
        more=["--small"],
    )
    for job in jobs:
        job.command.insert(1, f"--callgrind-out-file={job.path('cg')}")
    return jobs


def known(prop):
    """The listed findings: exact signatures per property."""
    listed = {}
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as file:
            for line in file:
                found = re.match(r"known: property=(\S+) signature=(\S.*?) :: (.*)", line.strip())
                if found and found.group(1) == prop:
                    listed[found.group(2)] = found.group(3)
    except OSError:
        pass
    return listed


# -------------------------------------------------------------------- evidence


def rules():
    with open(os.path.join(HERE, "rules.json")) as file:
        return json.load(file)


def gather(jobs):
    evaluations, counters, samples, hashes = 0, {}, [], set()
    for job in jobs:
        report = job.report
        if report is None:
            continue
        evaluations += report["evaluations"]
        for name, value in report["counters"].items():
            if name.startswith("max "):
                counters[name] = max(counters.get(name, 0), value)
            else:
                counters[name] = counters.get(name, 0) + value
        for text in report["samples"]:
            kind = text.split("#")[0]
            if len(samples) < 14 and not any(s.split("#")[0] == kind for s in samples):
                samples.append(text)
        try:
            with open(job.path("distinct"), "rb") as file:
                data = file.read()
            hashes.update(data[i : i + 8] for i in range(0, len(data), 8))
        except OSError:
            pass
    return evaluations, counters, samples, len(hashes)


def write_evidence(prop, tier, seed, jobs, extra, violations, doubts):
    row = rules()[prop]
    evaluations, counters, samples, distinct = gather(jobs)
    per = {}
    for job in jobs:
        if job.report is not None:
            per[job.variant] = per.get(job.variant, 0) + job.report["evaluations"]
    coverage = dict(
        evaluations=evaluations,
        distinct_nontrivial=distinct,
        rule=row["rule"],
        samples=samples or ["none"],
        evaluations_per_build=per,
        counters=counters,
        monitors=row["monitors"],
        exhaustive=bool(row.get("exhaustive")) and all(
            j.report is not None and "stopped at the time cap" not in j.report["counters"] for j in jobs
        ),
    )
    coverage.update(extra)
    document = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level=row["level"],
        coverage=coverage,
        assumptions=row["assumptions"],
        wall_s=round(time.time() - STARTED, 2),
        violations=len(violations),
    )
    if doubts:
        document["coverage"]["doubts"] = [d[:400] for d in doubts[:8]]
    os.makedirs(EVIDENCE, exist_ok=True)
    path = os.path.join(EVIDENCE, f"{prop}.json")
    with open(path + ".new", "w") as file:
        json.dump(document, file, indent=1)
        file.write("\n")
    os.replace(path + ".new", path)
    return evaluations, distinct


def write_replay(prop, tier, seed, violation, n):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{prop}-{n}.json")
    document = dict(
        property=prop,
        tier=tier,
        seed=seed,
        again=f"python3 {os.path.join(HERE, 'check.py')} --replay {path}",
        **violation,
    )
    with open(path, "w") as file:
        json.dump(document, file, indent=1)
        file.write("\n")
    return path


# ------------------------------------------------------------------------ main


def decide(prop, tier, seed):
    deep = tier == "thorough"
    cap = int(os.environ.get("VH_CAP", "300" if deep else "100"))
    usual = 1 if deep else QUICK.get(prop, 6)
    scale = float(os.environ.get("VH_SCALE", usual))
    folder = os.path.join(WORK, "run", prop)
    shutil.rmtree(folder, ignore_errors=True)
    os.makedirs(folder)
    names = ["checked", "release"]
    if prop == "M01":
        names += ["asan", "miri"]
    programs = build(names)
    log(f"built {', '.join(names)}")
    extra, violations, doubts = {}, [], []
    if prop == "M01":
        jobs = memory(tier, seed, programs, folder, scale, cap)
    else:
        jobs = native(prop, tier, seed, "checked", programs["checked"], folder, scale, cap)
        jobs += native(prop, tier, seed, "release", programs["release"], folder, scale, cap)
        if prop == "A05":
            jobs += callgrind(tier, seed, programs["release"], folder, cap)
        in_parallel(jobs, SHARDS, Stop(prop, tier))
    found, doubted = verdicts(jobs)
    violations += found
    doubts += doubted
    if prop == "B07":
        found, compared = same_digests(jobs)
        violations += found
        extra["cases_compared_between_builds"] = compared
        if compared == 0:
            doubts.append("no case was compared between the builds")
    if prop == "A05":
        found, lines, seen = grown(jobs)
        violations += found
        extra["instructions_per_unit_at_growing_sizes"] = lines
        extra["executions_under_callgrind"] = seen
        if seen == 0 and not violations:
            doubts.append("no execution was counted by Callgrind")
    unique, seen = [], set()
    for v in violations:
        if v["signature"] not in seen:
            seen.add(v["signature"])
            unique.append(v)
    listed = known(prop)
    fresh = [v for v in unique if v["signature"] not in listed]
    evaluations, distinct = write_evidence(prop, tier, seed, jobs, extra, fresh, doubts)
    log(f"{prop}: {evaluations} evaluations, {distinct} distinct and non-trivial")
    for v in unique:
        if v["signature"] in listed:
            print(f"KNOWN-FINDING: property={prop} {listed[v['signature']]}")
    for d in doubts:
        print(f"DOUBT: property={prop} {d[:500]}")
    if fresh:
        for n, v in enumerate(fresh[:10]):
            path = write_replay(prop, tier, seed, v, n)
            print(f"  {v['signature']} [{v['variant']}, {v['kind']}#{v['index']}]: {v['detail'][:400]}")
            print(f"VIOLATION property={prop} replay={path}", flush=True)
        return 1
    if doubts:
        print(f"INCONCLUSIVE: property={prop}")
        return 3
    if distinct < rules()[prop].get("least", 100) * min(scale, 1):
        print(f"INCONCLUSIVE: property={prop} only {distinct} distinct cases were observed")
        return 3
    shutil.rmtree(folder, ignore_errors=True)
    return 0


def memory(tier, seed, programs, folder, scale, cap):
    """The same workload under four monitors: bounds checks and the allocator
    monitor, AddressSanitizer with LeakSanitizer, Memcheck, and Miri."""
    deep = tier == "thorough"
    # Cases that Miri can get through: by their cost in the checked build.
    costs = os.path.join(folder, "costs")
    stop = Stop("M01", tier)
    done = subprocess.run(
        ["timeout", "-s", "KILL", "300", programs["checked"]]
        + arguments("M01", tier, seed, 0, 1, 1, 100)
        + ["--small", "--costs", costs, "--recorder", os.path.join(folder, "costs.rec")]
        + ["--out", os.path.join(folder, "costs.json")],
        env=environment(),
        stdin=subprocess.DEVNULL,
        stdout=subprocess.DEVNULL,
        stderr=subprocess.DEVNULL,
    )
    jobs = native("M01", tier, seed, "checked", programs["checked"], folder, scale, cap)
    jobs += native(
        "M01",
        tier,
        seed,
        "asan",
        programs["asan"],
        folder,
        scale * 0.3,
        cap,
        env=environment(
            ASAN_OPTIONS="exitcode=44:abort_on_error=0:detect_leaks=1:allocator_may_return_null=1"
        ),
    )
    jobs += native(
        "M01",
        "quick",
        seed + 1,
        "memcheck",
        programs["release"],
        folder,
        scale * (2 if deep else 0.1),
        cap,
        prefix=[
            "valgrind",
            "-q",
            f"--error-exitcode={MEMCHECK}",
            "--leak-check=full",
            "--errors-for-leak-kinds=definite",
            "--show-leak-kinds=definite",
        ],
    )
    in_parallel(jobs, SHARDS, stop)
    if done.returncode != 0:
        # What went wrong here goes wrong in the runs above as well.
        log(f"the costs could not be measured: {done.returncode}")
        return jobs
    log("checked, AddressSanitizer, and Memcheck are done; Miri next")
    picks = choose(costs, seed, (600_000 if deep else 90_000) * scale)
    slow = []
    for shard in range(SHARDS):
        job = Job("miri", shard, None, None, folder, 1200 if deep else 300)
        job.env = environment(CARGO_TARGET_DIR=programs["miri"], MIRIFLAGS=MIRIFLAGS)
        with open(job.path("pick"), "w") as file:
            file.write("\n".join(picks[shard]) + "\n")
        job.command = ["cargo", "+nightly", "miri", "run", "--offline", "--"]
        job.command += arguments("M01", tier, seed, 0, 1, 1, 900 if deep else 140)
        job.command += ["--small", "--pick", job.path("pick")]
        job.command += ["--out", job.path("json"), "--distinct", job.path("distinct")]
        slow.append(job)
    in_parallel(slow, SHARDS, stop)
    return jobs + slow


def choose(costs, seed, budget):
    """For every shard, cases of every kind that together cost so much."""
    import random

    chance = random.Random(seed)
    kinds = {}
    with open(costs) as file:
        for line in file:
            case, cost = line.rstrip("\n").rsplit(" ", 1)
            kinds.setdefault(case.split("#")[0], []).append((int(cost), case))
    picks = [[] for _ in range(SHARDS)]
    for rows in kinds.values():
        # Reading the counters itself costs this much.
        floor = min(rows)[0] - 200
        rows = [(cost - floor, case) for cost, case in rows if cost - floor < 60_000]
        chance.shuffle(rows)
        for shard in range(SHARDS):
            left = budget / len(kinds)
            while rows and left > 0:
                cost, case = rows.pop()
                left -= cost
                picks[shard].append(case)
    return picks


def replay(path):
    with open(path) as file:
        document = json.load(file)
    if document["variant"] == "callgrind":
        folder = os.path.join(WORK, "run", "replay")
        shutil.rmtree(folder, ignore_errors=True)
        os.makedirs(folder)
        programs = build(["release"])
        jobs = callgrind("quick", document["seed"], programs["release"], folder, 600)[:1]
        jobs[0].command += ["--only", f"growth#{document['index']}"]
        in_parallel(jobs, 1, Stop("A05", "thorough"))
        found, lines, _ = grown(jobs)
        print(json.dumps(lines))
        for v in found:
            print(v["signature"], v["detail"])
        return 1 if found else 0
    variants = [v for v in ("checked", "release", "asan") if v in document["variant"]] or ["checked"]
    programs = build(variants)
    code = 0
    for variant in variants:
        command = [programs[variant]]
        command += arguments(document["property"], document["tier"], document["seed"], 0, 1, 1, 600)
        command += ["--only", f"{document['kind']}#{document['index']}"]
        print(" ".join(command), flush=True)
        done = subprocess.run(command, env=environment(), cwd=HARNESS, stdout=subprocess.PIPE, text=True)
        print(done.stdout[:4000])
        if done.returncode != 0 or '"violations":[]' not in done.stdout:
            code = 1
    return code


def main():
    words = sys.argv[1:]
    if "--setup" in words:
        build(list(VARIANTS))
        log("built everything")
        return 0
    if "--replay" in words:
        return replay(words[words.index("--replay") + 1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in words:
        tier = "thorough"
    if "--quick" in words:
        tier = "quick"
    if tier != "thorough":
        tier = "quick"
    props = [w for w in words if not w.startswith("--")]
    if len(props) != 1 or props[0] not in rules():
        print(__doc__)
        return 2
    seed = number(os.environ.get("VERIF_SEED", "1"))
    try:
        return decide(props[0], tier, seed)
    except Inconclusive as why:
        print(f"INCONCLUSIVE: property={props[0]} {why}")
        return 3


if __name__ == "__main__":
    sys.exit(main())
