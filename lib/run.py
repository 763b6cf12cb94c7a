"""Runs monitor cases in isolated worker processes and collects what the monitors observed.

A worker runs a range of cases; its events arrive on a pipe. A case that kills the worker (sanitizer report,
assertion, signal, exit()) is attributed to the case that was open, and the range resumes after it. A case that
stalls is re-run once alone with a larger limit and otherwise counted as inconclusive, never as a violation.
"""
import os, re, select, shutil, subprocess, sys, tempfile, time, signal
from collections import Counter
from concurrent.futures import ThreadPoolExecutor

BASE_ENV = {
    "PATH": "/usr/bin:/bin", "LANG": "C", "LC_ALL": "C", "HOME": "/nonexistent",
    "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "GOTO_NUM_THREADS": "1",
}


def san_env(fill="0xbe", leaks=False, quarantine=1):
    e = dict(BASE_ENV)
    e["ASAN_OPTIONS"] = ("detect_leaks=%d:abort_on_error=0:exitcode=77:allocator_may_return_null=1:"
                         "detect_stack_use_after_return=0:malloc_fill_byte=%s:max_malloc_fill_size=16384:"
                         "free_fill_byte=219:max_free_fill_size=4096:alloc_dealloc_mismatch=1:"
                         "detect_odr_violation=0:quarantine_size_mb=%d:malloc_context_size=6:handle_abort=1:handle_segv=1:"
                         "strict_string_checks=1:print_summary=1" % (1 if leaks else 0, int(fill, 16), quarantine))
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    return e


class Case:
    __slots__ = ("k", "viol", "crash", "timeout", "notes", "secs")

    def __init__(self, k):
        self.k, self.viol, self.crash, self.timeout, self.notes, self.secs = k, [], None, False, [], 0.0


class Result:
    def __init__(self):
        self.cases = {}
        self.obs = Counter()
        self.states = set()
        self.errors = []
        self.skipped = 0

    def merge(self, o):
        self.cases.update(o.cases)
        self.obs.update(o.obs)
        self.states |= o.states
        self.errors += o.errors
        self.skipped += o.skipped


FRAME = re.compile(r"^\s*#\d+ 0x[0-9a-f]+ (?:in )?(.*)$")


def strip_fn(s):
    s = re.sub(r"\(BuildId.*", "", s)
    s = re.sub(r"\s+\(?/[^ ]*.*$", "", s)
    # drop the parameter list
    depth, out = 0, ""
    for ch in s:
        if ch in "(<":
            depth += 1
        elif ch in ")>":
            depth -= 1
        elif depth == 0:
            out += ch
    return out.strip()


def classify_crash(text, rc):
    """Stable key for an abnormal end: kind + innermost function of the tree on the stack."""
    kind, body = None, ""
    m = re.search(r"([\w./-]+\.\w+):(\d+): (.*?): Assertion [`'](.*?)' failed", text)
    if m:
        kind = "assert"
        body = text[m.start():]
    if not m:
        m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
        if m and m.group(1) != "ABRT":
            kind = "asan-" + m.group(1)
            body = text[m.start():]
    if kind is None:
        m = re.search(r"([^\s:]+):\d+(?::\d+)?: runtime error: (.*)", text)
        if m:
            kind = "ubsan-" + re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m.group(2))[:60].strip().replace(" ", "-")
            body = text[m.start():]
    if kind is None:
        m = re.search(r"terminate called after throwing an instance of '(.*?)'", text)
        if m:
            kind, body = "uncaught-" + m.group(1), text[m.start():]
    if kind is None:
        m = re.search(r"ERROR: LeakSanitizer", text)
        if m:
            kind, body = "leak", text[m.start():]
    if kind is None:
        kind = "exit-%s" % rc
        body = text[-3000:]
    fn = None
    if kind == "assert" and m:
        fn = strip_fn(m.group(3)).split(" ")[-1] + "{" + m.group(4)[:80] + "}"
    if not fn:
        for line in body.splitlines():
            f = FRAME.match(line)
            if f and "/src/" in line and ("/Bon" in line):
                fn = strip_fn(f.group(1).split(" /")[0])
                break
    if not fn:
        for line in body.splitlines():
            f = FRAME.match(line)
            if f and "Bonmin::" in line:
                fn = strip_fn(f.group(1))
                break
    return "%s@%s" % (kind, fn or "?"), body[:6000]


MAX_CRASHES = 60  # a run with more crashing cases has said enough


def _worker(exe, mode, seed, ks, args, env, per_case, scratch_root, runner_prefix, deadline=None, crashes=None):
    """ks: consecutive list of case numbers."""
    res = Result()
    i = 0
    while i < len(ks):
        if (deadline and time.time() > deadline) or (crashes is not None and len(crashes) > MAX_CRASHES):
            res.skipped += len(ks) - i
            break
        a, b = ks[i], ks[-1] + 1
        scratch = tempfile.mkdtemp(dir=scratch_root)
        r, w = os.pipe()
        outp = os.path.join(scratch, ".log")
        cwd = os.path.join(scratch, "cwd")
        os.mkdir(cwd)
        with open(outp, "wb") as lf:
            p = subprocess.Popen(runner_prefix + [exe, mode, str(seed), str(a), str(b), str(w)] +
                                 ["%s=%s" % kv for kv in sorted(args.items())],
                                 stdin=subprocess.DEVNULL, stdout=lf, stderr=subprocess.STDOUT, cwd=cwd, env=env,
                                 pass_fds=(w,), start_new_session=True)
        os.close(w)
        buf, cur, last, done, timed = b"", None, time.time(), i, False
        while True:
            left = per_case - (time.time() - last)
            if left <= 0:
                timed = True
                break
            rd, _, _ = select.select([r], [], [], left)
            if not rd:
                continue
            d = os.read(r, 65536)
            if not d:
                break
            buf += d
            *lines, buf = buf.split(b"\n")
            for ln in lines:
                ln = ln.decode("utf8", "replace")
                tag, _, rest = ln.partition(" ")
                if tag == "BEGIN":
                    cur = Case(int(rest))
                    last = time.time()
                elif tag == "END":
                    cur.secs = time.time() - last
                    res.cases[cur.k] = cur
                    done += 1
                    cur = None
                    last = time.time()
                elif tag == "VIOL":
                    key, _, det = rest.partition(" | ")
                    cur.viol.append((key, det))
                elif tag == "OBS":
                    key, _, c = rest.rpartition(" ")
                    res.obs[key] += int(c)
                elif tag == "STATE":
                    res.states.add(rest)
                elif tag == "NOTE":
                    cur.notes.append(rest) if cur else None
        if timed:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        try:
            rc = p.wait(timeout=30)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            rc = p.wait()
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        os.close(r)
        text = b""
        try:
            with open(outp, "rb") as lf:
                lf.seek(0, 2)
                sz = lf.tell()
                lf.seek(max(0, sz - 200000))
                text = lf.read()
        except OSError:
            pass
        text = text.decode("utf8", "replace")
        shutil.rmtree(scratch, ignore_errors=True)
        if timed:
            c = cur or Case(ks[done] if done < len(ks) else ks[-1])
            c.timeout = True
            c.secs = per_case
            res.cases[c.k] = c
            i = done = done + 1
            continue
        if rc == 0 and done >= len(ks):
            break
        if rc == 6 and cur is not None:  # evaluation budget of the monitor exceeded
            cur.timeout = True
            res.cases[cur.k] = cur
            done += 1
            i = done
            continue
        if cur is not None:
            key, body = classify_crash(text, rc)
            cur.crash = (key, body)
            if crashes is not None:
                crashes.append(cur.k)
            res.cases[cur.k] = cur
            done += 1
        elif rc == 3 or done == i:
            res.errors.append("worker failed (rc %s): %s" % (rc, text[-500:]))
            break
        i = done
    return res


def run_cases(exe, mode, seed, n, args=None, per_case=30.0, chunk=20, jobs=None, env=None, prefix=None, start=0,
              ks=None, budget=None):
    """Runs cases start..start+n-1 and returns a Result."""
    deadline = time.time() + budget if budget else None
    args = dict(args or {})
    env = env or san_env()
    jobs = jobs or min(8, os.cpu_count() or 8)
    root = tempfile.mkdtemp(prefix="vmon.", dir="/tmp")
    ks = list(range(start, start + n)) if ks is None else ks
    # consecutive chunks
    chunks, cur = [], []
    for k in ks:
        if cur and (k != cur[-1] + 1 or len(cur) >= chunk):
            chunks.append(cur)
            cur = []
        cur.append(k)
    if cur:
        chunks.append(cur)
    out = Result()
    crashes = [] if budget else None
    try:
        with ThreadPoolExecutor(max_workers=jobs) as ex:
            for r in ex.map(lambda c: _worker(exe, mode, seed, c, args, env, per_case, root, prefix or [], deadline, crashes), chunks):
                out.merge(r)
        slow = [k for k, c in out.cases.items() if c.timeout and c.secs > 0]
        if slow:
            with ThreadPoolExecutor(max_workers=max(1, jobs // 2)) as ex:
                for r in ex.map(lambda k: _worker(exe, mode, seed, [k], args, env, per_case * 2, root, prefix or [], deadline),
                                slow[:8]):
                    out.merge(r)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return out
