"""Replay of one input against the native build of the same harness."""
import os, random, re, shutil, subprocess, tempfile


class N:
    def __init__(self, rc, text):
        self.rc, self.text = rc, text
        self.notes = re.findall(r"^NOTE (\S+)", text, re.M)
        self.assertion = (re.findall(r"^ASSERT-FAILED (.*)$", text, re.M) or [None])[0]
        self.panic = (re.findall(r"^PANIC (.*)$", text, re.M) or [None])[0]
        self.failed = rc != 0 or self.assertion is not None or self.panic is not None

    def summary(self):
        if self.assertion:
            return "assertion failed: " + self.assertion
        if self.panic:
            return "panic at " + self.panic
        if self.rc:
            return f"exit {self.rc}" + (" " + self.text.strip().splitlines()[-1][:80] if self.text.strip() else "")
        return "ok " + " ".join(re.findall(r"^MARK (.*)$", self.text, re.M))[:80]


def run(paths, entry, args, hexin, timeout=60):
    d = tempfile.mkdtemp(prefix="vrun-")
    try:
        p = subprocess.run([paths["vrun"], entry, hexin] + [str(a) for a in args], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, stdin=subprocess.DEVNULL)
        return N(p.returncode, p.stdout.decode("utf-8", "replace"))
    except subprocess.TimeoutExpired:
        return N(124, "TIMEOUT")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def same(n, label):
    """does the native run fail the way the engine says?"""
    if label.startswith("panic at") or label.startswith("step limit") or label.startswith("abort"):
        return n.panic is not None or n.rc in (101, 134, -6, 124)
    return n.assertion == label


def choose(samples, cap, seed):
    r = random.Random(seed)
    s = list(samples)
    r.shuffle(s)
    # one of every ending first
    out, seen = [], set()
    for x in s:
        if x[1] not in seen:
            seen.add(x[1])
            out.append(x)
    for x in s:
        if len(out) >= cap:
            break
        if x not in out:
            out.append(x)
    return out[:cap]
