"""Property-based testing of the Python module: random choice sequences, forked workers (a crash of the
wrapper is a failure of the case that was running, not of the engine), shrinking, replay files.
Command line and output are those of lib/pbt_main.cpp."""
import argparse
import hashlib
import json
import mmap
import os
import pickle
import random
import signal
import struct
import sys
import time
import traceback

SUBS = []
CASE_TIMEOUT = 60


def prop(quick, thorough):
    def deco(fn):
        SUBS.append((fn.__name__, fn, quick, thorough))
        return fn
    return deco


class Discard(Exception):
    pass


class Violation(Exception):
    pass


def require(cond, *msg):
    if not cond:
        raise Violation(" ".join(str(m) for m in msg))


class Src:
    """source of choices: random (recorded), or replayed (zeros after the end)"""

    def __init__(self, seed=None, choices=None, log=None):
        self.rng = random.Random(seed) if choices is None else None
        self.inp = choices
        self.rec = []
        self.log = log

    def draw(self, n):
        if n <= 1:
            v = 0
        elif self.rng is not None:
            v = self.rng.randrange(n)
        else:
            v = self.inp[len(self.rec)] % n if len(self.rec) < len(self.inp) else 0
        self.rec.append(v)
        if self.log is not None:
            self.log.append(v)
        return v

    def i(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def b(self, p=0.5):
        # zero means False, so that shrinking removes features
        return self.draw(1000) >= 1000 * (1 - p)

    def u(self):
        return self.draw(1 << 24) / float(1 << 24)

    def f(self, lo, hi):
        return lo + (hi - lo) * self.u()

    def pick(self, xs):
        return xs[self.draw(len(xs))]


class Ctx:
    def __init__(self):
        self.nontriv = False
        self.labels = []
        self.notes = []

    def nontrivial(self, x=True):
        self.nontriv = self.nontriv or bool(x)

    def label(self, name, on=True):
        if on:
            self.labels.append(name)

    def log(self, *a):
        self.notes.append(" ".join(str(x) for x in a))


class Log:
    """choices of the running case in shared memory: they survive a crash"""
    SIZE = 1 << 20

    def __init__(self):
        self.m = mmap.mmap(-1, self.SIZE)
        self.clear()

    def clear(self):
        self.n = 0
        self.m[0:4] = struct.pack("I", 0)

    def append(self, v):
        if 4 * (self.n + 2) < self.SIZE:
            self.m[4 + 4 * self.n:8 + 4 * self.n] = struct.pack("I", v & 0xffffffff)
            self.n += 1
            self.m[0:4] = struct.pack("I", self.n)

    def get(self):
        n = struct.unpack("I", self.m[0:4])[0]
        return list(struct.unpack("%dI" % n, self.m[4:4 + 4 * n]))


def run_case(fn, s):
    c = Ctx()
    try:
        fn(s, c)
        return "ok", "", c
    except Discard:
        return "discard", "", c
    except Violation as e:
        return "fail", str(e), c
    except Exception:
        # an exception that the property did not expect (a bug of the wrapper, or of the property)
        return "fail", traceback.format_exc(limit=-4), c


def forked(fn, choices, log=None):
    """status of one replayed case, run in a child: ok / discard / fail / crash"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        quiet()
        signal.alarm(CASE_TIMEOUT)
        st, msg, c = run_case(fn, Src(choices=choices, log=log))
        with os.fdopen(w, "wb") as f:
            pickle.dump((st, msg, c.notes), f)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if status == 0 and data:
        return pickle.loads(data)
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGALRM:
        return "crash", "does not end within %d s" % CASE_TIMEOUT, []
    return "crash", "the process ended with status %d" % status, []


def quiet():
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    if not os.environ.get("VERIF_STDERR"):
        os.dup2(fd, 2)


def shrink(fn, choices, status, limit):
    t0 = time.time()
    best = list(choices)
    tries = 0

    def bad(cand):
        nonlocal tries
        tries += 1
        return forked(fn, cand)[0] == status

    changed = True
    while changed and time.time() - t0 < limit:
        changed = False
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() - t0 < limit:
            k = 0
            while k < len(best) and time.time() - t0 < limit:
                cand = best[:k] + best[k + size:]
                if bad(cand):
                    best = cand
                    changed = True
                else:
                    if any(best[k:k + size]):
                        cand = best[:k] + [0] * len(best[k:k + size]) + best[k + size:]
                        if bad(cand):
                            best = cand
                            changed = True
                    k += size
            size //= 2
        for k in range(len(best)):
            if time.time() - t0 > limit:
                break
            lo, hi = 0, best[k]
            while lo < hi and time.time() - t0 < limit:
                mid = (lo + hi) // 2
                if bad(best[:k] + [mid] + best[k + 1:]):
                    hi = mid
                else:
                    lo = mid + 1
            if hi < best[k] and bad(best[:k] + [hi] + best[k + 1:]):
                best[k] = hi
                changed = True
    while best and best[-1] == 0 and time.time() - t0 < limit + 5 and forked(fn, best[:-1])[0] == status:
        best.pop()
    return best


def worker(name, fn, seed, indices, log, conn):
    """runs cases in a forked child; the child is restarted behind a case that crashed it"""
    stats = {"evaluations": 0, "discarded": 0, "hashes": set(), "labels": {}, "samples": [], "fail": None}
    todo = list(indices)
    while todo and stats["fail"] is None:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            quiet()
            with os.fdopen(w, "wb") as f:
                for i in todo:
                    log.clear()
                    signal.alarm(CASE_TIMEOUT)
                    cs = int.from_bytes(hashlib.sha256(("%d/%s/%d" % (seed, name, i)).encode()).digest()[:8], "big")
                    s = Src(seed=cs, log=log)
                    st, msg, c = run_case(fn, s)
                    pickle.dump((i, st, msg, c.nontriv, c.labels, hash(tuple(s.rec)), s.rec if st == "fail" or c.nontriv and i < 3 else None, c.notes), f)
                    f.flush()
                    if st == "fail":
                        break
            os._exit(0)
        os.close(w)
        done = 0
        with os.fdopen(r, "rb") as f:
            while True:
                try:
                    i, st, msg, nt, labels, h, rec, notes = pickle.load(f)
                except (EOFError, pickle.UnpicklingError):
                    break
                done += 1
                stats["evaluations"] += 1
                if st == "discard":
                    stats["discarded"] += 1
                    continue
                for l in labels:
                    stats["labels"][l] = stats["labels"].get(l, 0) + 1
                if nt:
                    stats["hashes"].add(h)
                    if rec is not None and st == "ok" and len(stats["samples"]) < 1:
                        stats["samples"].append({"sub": name, "case": i, "choices": len(rec), "log": notes[:6]})
                if st == "fail":
                    stats["fail"] = ("fail", msg, rec)
        _, status = os.waitpid(pid, 0)
        if stats["fail"] is None and status != 0:
            what = "status %d" % status
            if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGALRM:
                what = "does not end within %d s" % CASE_TIMEOUT
            stats["evaluations"] += 1
            stats["fail"] = ("crash", "the process ended: " + what, log.get())
        if status == 0:
            break
        todo = todo[done:]
        if status != 0 and stats["fail"] is None:
            todo = todo[1:]
    with os.fdopen(conn, "wb") as f:
        pickle.dump(stats, f)
    os._exit(0)


def main():
    a = argparse.ArgumentParser()
    for o, t, d in [("prop", str, ""), ("tier", str, "quick"), ("seed", int, 1), ("out", str, ""), ("replay-dir", str, "."), ("workers", int, 8),
                    ("scale", float, 1.0), ("sub", str, ""), ("tag", str, ""), ("replay", str, ""), ("shrink", float, 40)]:
        a.add_argument("--" + o, type=t, default=d)
    o = a.parse_args()
    if o.replay:
        d = json.load(open(o.replay))
        for name, fn, q, t in SUBS:
            if name == d["sub"]:
                st, msg, notes = forked(fn, d["choices"])
                print(st, msg)
                for n in notes:
                    print("  " + n)
                return 1 if st in ("fail", "crash") else 0
        return 2
    t0 = time.time()
    res = {"subs": [], "evaluations": 0, "distinct_nontrivial": 0, "samples": [], "violated": False}
    for name, fn, q, t in SUBS:
        if o.sub and o.sub != name:
            continue
        n = max(1, int((t if o.tier == "thorough" else q) * o.scale))
        procs = []
        for k in range(o.workers):
            r, w = os.pipe()
            log = Log()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                for rr, _, _ in procs:
                    os.close(rr)
                worker(name, fn, o.seed, range(k, n, o.workers), log, w)
            os.close(w)
            procs.append((r, pid, log))
        sub = {"sub": name + (":" + o.tag if o.tag else ""), "evaluations": 0, "discarded": 0, "labels": {}}
        hashes, fail = set(), None
        for r, pid, log in procs:
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            if not data:
                print("ERROR: worker of %s died" % name)
                return 2
            st = pickle.loads(data)
            sub["evaluations"] += st["evaluations"]
            sub["discarded"] += st["discarded"]
            for l, v in st["labels"].items():
                sub["labels"][l] = sub["labels"].get(l, 0) + v
            hashes |= st["hashes"]
            if len(res["samples"]) < 12 and not any(x["sub"] == name for x in res["samples"]):
                res["samples"] += st["samples"]
            if st["fail"] and (fail is None or len(st["fail"][2]) < len(fail[2])):
                fail = st["fail"]
        sub["distinct_nontrivial"] = len(hashes)
        res["subs"].append(sub)
        res["evaluations"] += sub["evaluations"]
        res["distinct_nontrivial"] += sub["distinct_nontrivial"]
        if fail:
            best = shrink(fn, fail[2], fail[0], o.shrink)
            st, msg, notes = forked(fn, best)
            path = os.path.join(o.replay_dir, "%s_%s.json" % (o.prop, name))
            with open(path, "w") as f:
                json.dump({"property": o.prop, "case_property": o.prop, "sub": name, "engine": "python", "status": st, "message": msg or fail[1],
                           "log": notes, "choices": best, "original_choices": fail[2]}, f, indent=1)
            print("FAILED %s %s: %s" % (o.prop, name, msg or fail[1]))
            print("REPLAY " + path)
            res["violated"] = True
        else:
            top = sorted(sub["labels"].items(), key=lambda x: -x[1])[:24]
            print("%s %s: %d cases, %d discarded, %d distinct non-trivial %s" % (o.prop, sub["sub"], sub["evaluations"], sub["discarded"], sub["distinct_nontrivial"], dict(top)))
        sys.stdout.flush()
    res["wall_s"] = round(time.time() - t0, 2)
    if o.out:
        with open(o.out, "w") as f:
            json.dump(res, f)
    return 1 if res["violated"] else 0
