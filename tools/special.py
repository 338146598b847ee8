"""C27: the library's own workloads under sanitizers.

AddressSanitizer and ThreadSanitizer builds of the harness run a share of the
other checks' workloads; Miri interprets small cases over every part of the
library. Only what the sanitizers report is judged: whether the answers were
right is decided by the other checks.
"""

import collections
import concurrent.futures
import ctypes
import glob
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import time

import build

# workloads and the share (percent) of the quick amount they run with
ASAN = [("C01", 5), ("C02", 5), ("C03", 5), ("C06", 5), ("C07", 5), ("C08", 5), ("C13", 10), ("C16", 10), ("C18", 5), ("C21", 10), ("C26", 5)]
TSAN = [("C13", 10), ("C14", 10), ("C15", 5), ("C16", 10), ("C18", 5), ("C10", 5), ("C20", 5), ("C21", 10), ("C24", 5), ("C25", 5), ("C26", 5)]

# groups of cases and how many processes run one each
MIRI = [("conversation", 4), ("values", 1), ("storage", 1), ("racing", 2), ("threads", 2), ("keys", 1), ("messages", 2), ("ciphers", 2), ("deflate", 2), ("brotli", 2)]
FILES = {"storage", "racing", "conversation"}

# the asynchronous runtime and the HTTP stack: by the file, or by the name of
# the function where there is no line information
CRATES = "tokio|mio|hyper|hyper[-_]util|axum|axum[-_]core|reqwest|tower|h2|want|futures[-_][a-z]+|parking_lot[a-z_]*|rustls|ring|tracing[-_]core"
RUNTIME = re.compile(rf"/({CRATES})-\d[^/]*/|#\d+ [<&(]*(dyn )?({CRATES})::")


# ------------------------------------------------------------- containment

class Landlock:
    """Keeps writes of a process and its children inside given folders."""

    def __init__(self):
        self.libc = ctypes.CDLL(None, use_errno=True)
        self.abi = self.libc.syscall(444, None, 0, 1)

    def available(self):
        return self.abi >= 1

    def restrict(self, folders):
        bits = sum(1 << b for b in (1, 4, 5, 6, 7, 8, 9, 10, 11, 12))
        if self.abi >= 2:
            bits |= 1 << 13
        if self.abi >= 3:
            bits |= 1 << 14
        attr = ctypes.c_uint64(bits)
        ruleset = self.libc.syscall(444, ctypes.byref(attr), 8, 0)
        if ruleset < 0:
            os._exit(99)

        class Beneath(ctypes.Structure):
            _pack_ = 1
            _fields_ = [("access", ctypes.c_uint64), ("fd", ctypes.c_int32)]

        for folder in folders:
            fd = os.open(folder, os.O_PATH)
            if self.libc.syscall(445, ruleset, 1, ctypes.byref(Beneath(bits, fd)), 0) != 0:
                os._exit(99)
        self.libc.prctl(38, 1, 0, 0, 0)
        if self.libc.syscall(446, ruleset, 0) != 0:
            os._exit(99)


# ---------------------------------------------------------------- processes

def launch(argv, cwd, env, log, timeout, user=None, preexec=None):
    def before():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if preexec:
            preexec()

    extra = {"user": user, "group": user, "extra_groups": []} if user else {}
    started = time.time()
    with open(log, "wb") as out:
        process = subprocess.Popen(argv, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=out, stderr=out,
                                   start_new_session=True, preexec_fn=before, **extra)
        try:
            code = process.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            code = None
        try:
            os.killpg(process.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        process.wait()
    TIMES.append((round(time.time() - started, 1), os.path.basename(log)))
    with open(log, "rb") as f:
        return code, f.read(4 << 20).decode("utf-8", "replace")


# ------------------------------------------------------------------ reports

def owner(frame):
    """Whose code a stack frame is: library, harness, runtime or other."""
    if "/repo/src/" in frame:
        return "library"
    if "/harness/src/" in frame or re.search(r" (\./)?src/(props/)?[a-z0-9]+\.rs:\d+", frame):
        return "harness"
    if RUNTIME.search(frame):
        return "runtime"
    return "other"


def first_owner(stack):
    for frame in stack:
        who = owner(frame)
        if who != "other":
            return who
    return "other"


def tsan_reports(text):
    """(title, stacks of the accesses, text) of each report."""
    for block in text.split("=================="):
        m = re.search(r"(?:WARNING|FATAL|ERROR): ThreadSanitizer: ([^\n]*?)(?: \(pid=\d+\))?(?: on |\n|$)", block)
        if not m:
            continue
        stacks = []
        for part in re.split(r"\n\s*\n", block):
            head = re.match(r"\s*(?:WARNING[^\n]*\n\s*)?(?:(?:Previous )?(?:[Aa]tomic )?(?:[Rr]ead|[Ww]rite) of size|ERROR|Cycle|  Mutex)", part)
            if head:
                stacks.append(re.findall(r"^\s*#\d+ .*$", part, re.M))
        yield m.group(1).strip(), stacks, block


def judge_tsan(text):
    """Violations, and the number of reports that are not about the library."""
    found, ignored = [], collections.Counter()
    for title, stacks, block in tsan_reports(text):
        owners = [first_owner(s) for s in stacks]
        if title.startswith("data race") or "race" in title:
            if "library" not in owners:
                ignored[f"{title}: {'/'.join(sorted(set(owners))) or 'no stack'}"] += 1
                continue
        elif "/repo/src/" not in block:
            ignored[f"{title}: outside the library"] += 1
            continue
        where = next((f for s in stacks for f in s if owner(f) == "library"), "")
        found.append((f"ThreadSanitizer: {title}", where.strip(), block))
    if "ThreadSanitizer:DEADLYSIGNAL" in text or "ERROR: ThreadSanitizer: SEGV" in text:
        found.append(("ThreadSanitizer: invalid memory access", "", text[-6000:]))
    return found, ignored


def judge_asan(text):
    found = []
    for m in re.finditer(r"ERROR: AddressSanitizer:? ([^\n]*)", text):
        title = re.sub(r" (on|at|for) .*", "", re.sub(r"0x[0-9a-f]+", "", m.group(1))).strip()
        block = text[m.start():m.start() + 6000]
        where = next((f for f in re.findall(r"^\s*#\d+ .*$", block, re.M) if owner(f) == "library"), "")
        found.append((f"AddressSanitizer: {title}", where.strip(), block))
    return found


def judge_miri(text):
    """Miri's errors that concern the library, and the other ones."""
    found, ignored = [], collections.Counter()
    for m in re.finditer(r"^error: (.*)$", text, re.M):
        title = m.group(1)
        block = text[m.start():m.start() + 6000]
        end = re.search(r"\n\n(?:error|note: some details|warning)", block)
        block = block[:end.end()] if end else block
        if "Undefined Behavior" in title or "Data race" in title or "data race" in title:
            if "/repo/src/" in text[m.start():]:
                where = re.search(r"/repo/src/[^\s]*", text[m.start():]).group(0)
                found.append((f"Miri: {re.sub(r'alloc[0-9]+|0x[0-9a-f]+', '…', title)}", where, block))
            else:
                ignored[f"Miri: {title[:120]}"] += 1
        elif "could not compile" in title or "aborting due to" in title:
            continue
        else:
            ignored[f"Miri, no verdict: {title[:120]}"] += 1
    return found, ignored


TIMES = []
ABORT = "unsafe precondition(s) violated"


# ---------------------------------------------------------------------- run

class Monitor:
    def __init__(self, binaries, tier, seed, work, scratch, env, end):
        self.binaries, self.tier, self.seed, self.work, self.scratch, self.end = binaries, tier, seed, work, scratch, end
        self.env = env
        self.landlock = Landlock()
        self.observed = collections.Counter()
        self.evaluations = 0
        self.distinct = 0
        self.samples = []
        self.violations = []
        self.errors = []

    def left(self):
        return self.end - time.time()

    def violation(self, case, index, what, where, block):
        self.violations.append({"case": case, "index": index, "what": what, "detail": {"where": where, "report": block[:6000]}})

    def sanitizer(self, kind, prop, percent, index):
        if self.left() < 20:
            self.observed[f"{kind}: workloads not started, no time left"] += 1
            return
        name = f"{kind}-{prop}-{index}"
        home = os.path.join(self.work, name)
        os.mkdir(home)
        os.chown(home, 65534, 65534)
        options = f"exitcode=66:log_path={home}/rep"
        env = dict(self.env, TMPDIR=home, HOME=home, HV_SCALE=str(percent),
                   TSAN_OPTIONS=f"halt_on_error=0:report_signal_unsafe=0:second_deadlock_stack=1:{options}",
                   ASAN_OPTIONS=f"detect_leaks=0:detect_stack_use_after_return=1:{options}")
        argv = [self.binaries[kind], prop, "--tier", "quick", "--seed", str(self.seed * 1000 + index), "--scratch", os.path.join(home, "s"), "--out", os.path.join(home, "report.json")]
        code, text = launch(argv, home, env, os.path.join(self.scratch, name + ".log"), max(10, min(240, self.left())), user=65534)
        reports = "".join(open(f, errors="replace").read(8 << 20) for f in sorted(glob.glob(os.path.join(home, "rep.*"))))

        if kind == "tsan":
            found, ignored = judge_tsan(reports + ("\n" + text if "ThreadSanitizer" in text else ""))
            for what, n in ignored.items():
                self.observed[f"tsan: report not about the library ({what})"] += n
        else:
            found = judge_asan(reports + ("\n" + text if "AddressSanitizer" in text and not reports else ""))
        if ABORT in text:
            found.append(("an unsafe precondition is violated", "", text[-4000:]))
        for what, where, block in found:
            self.violation(f"{kind}/{prop}", index, what, where, block)

        if code is None:
            self.observed[f"{kind}: workloads cut by their time limit"] += 1
        elif code < 0 and not found:
            # not a sanitizer's verdict: crashes are judged by the plain checks
            self.observed[f"{kind}: workloads ended by signal {-code}"] += 1

        self.observed[f"{kind}: workloads"] += 1
        try:
            with open(os.path.join(home, "report.json")) as f:
                report = json.load(f)
            self.evaluations += report["evaluations"]
            self.distinct += report["distinct_nontrivial"]
            self.observed[f"{kind}: executions of {prop}'s workload"] += report["evaluations"]
            if len(self.samples) < 12 and report["samples"]:
                self.samples.append({"kind": f"{kind}/{prop}", "case": report["samples"][0]})
        except (OSError, ValueError):
            pass
        shutil.rmtree(home, ignore_errors=True)

    def miri(self, group, seed):
        if group in FILES and not self.landlock.available():
            self.observed["miri: cases skipped, no containment"] += 1
            return
        if self.left() < 30:
            self.observed["miri: cases not started, no time left"] += 1
            return
        name = f"miri-{group}-{seed}"
        home = os.path.join(self.work, name)
        os.mkdir(home)
        env = build.miri_env(seed)
        env["TMPDIR"] = home
        argv = build.miri_argv() + ["--", group, str(seed), "1", os.path.join(home, "a", "b", "c")]
        allowed = [home, build.target("miri"), "/dev"]
        preexec = (lambda: self.landlock.restrict(allowed)) if self.landlock.available() else None
        code, text = launch(argv, os.path.join(build.ROOT, "miri"), env, os.path.join(self.scratch, name + ".log"), max(20, min(420, self.left())), preexec=preexec)
        shutil.rmtree(home, ignore_errors=True)

        found, ignored = judge_miri(text)
        for what, where, block in found:
            self.violation(f"miri/{group}", seed, what, where, block)
        for what, n in ignored.items():
            self.observed[what] += n
        if code is None:
            self.observed["miri: processes cut by their time limit"] += 1
        elif code == 99 or (not found and "case " not in text):
            self.errors.append(f"miri {group} seed {seed} ended with {code}: {text[-600:]}")
            return
        for case, outcome, calls in re.findall(r"^case (\S+) (\w+) (\d+)$", text, re.M):
            self.evaluations += 1
            self.distinct += 1
            self.observed[f"miri: {group} cases"] += 1
            self.observed["miri: calls into the library"] += int(calls)
            if outcome != "ended":
                self.observed[f"miri: {group} cases that panicked"] += 1
            if len(self.samples) < 30:
                self.samples.append({"kind": "miri", "case": f"{case} of seed {seed}: {outcome}, {calls} calls"})


def run(kind, prop, tier, seed, binaries, scratch, work, env, deadline):
    started = time.time()
    spent = time.time() - float(env.pop("HV_STARTED", started))
    budget = max(150, min(520, 780 - spent)) if tier == "quick" else 3 * 3600
    monitor = Monitor(binaries, tier, seed, work, scratch, env, started + budget)
    rounds = 1 if tier == "quick" else 12
    share = 1 if tier == "quick" else 6

    with concurrent.futures.ThreadPoolExecutor(7) as heavy, concurrent.futures.ThreadPoolExecutor(2) as light:
        tasks = []
        for r in range(rounds):
            for group, n in MIRI:
                for i in range(n):
                    tasks.append(heavy.submit(monitor.miri, group, seed * 10000 + r * 100 + i))
            for name, jobs in (("tsan", TSAN), ("asan", ASAN)):
                for i, (p, percent) in enumerate(jobs):
                    tasks.append(light.submit(monitor.sanitizer, name, p, percent * share, r * 100 + i))
        for task in tasks:
            task.result()
    if os.environ.get("HV_TIMES"):
        print(*sorted(TIMES, reverse=True), sep="\n")

    observed = dict(sorted(monitor.observed.items()))
    for name, least in (("tsan: workloads", len(TSAN) // 2), ("asan: workloads", len(ASAN) // 2), ("miri: calls into the library", 100)):
        if observed.get(name, 0) < least and not monitor.violations:
            monitor.errors.append(f"observed too little: {name} = {observed.get(name, 0)}, needs at least {least}")

    return {
        "evaluations": monitor.evaluations, "distinct_nontrivial": monitor.distinct, "observed": observed,
        "samples": monitor.samples, "errors": monitor.errors,
        "violations": monitor.violations[:25], "violation_count": len(monitor.violations),
    }, None
