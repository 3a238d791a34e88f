"""Choice-sequence property testing engine: generation, shrinking, partitions, evidence, known findings."""
import hashlib
import json
import multiprocessing
import os
import pickle
import random
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GRACE = 90   # seconds that the other partitions get after the first violation
NPROC = max(1, min(8, os.cpu_count() or 1))


def seed_of(*parts):
    h = hashlib.sha256("\x00".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


class Src:
    """Source of choices. All randomness of a case comes from draw(); the sequence is recorded and can be replayed."""

    __slots__ = ("rng", "replay", "pos", "rec")

    def __init__(self, seed=None, replay=None):
        self.rng = random.Random(seed) if replay is None else None
        self.replay = replay
        self.pos = 0
        self.rec = []

    def draw(self, n):
        """An integer in [0, n). Smaller is simpler."""
        if n <= 1:
            return 0
        if self.replay is None:
            r = self.rng
            v = int(r.random() * n) if n < 1 << 40 else r.randrange(n)
        else:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            self.pos += 1
            if v >= n:
                v = n - 1
        self.rec.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def bool(self, num=1, den=2):
        """True with probability num/den; False is simpler."""
        return self.draw(den) >= den - num

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)], simplest first."""
        total = 0
        for w, _ in pairs:
            total += w
        k = self.draw(total)
        for w, v in pairs:
            if k < w:
                return v
            k -= w
        return pairs[-1][1]

    def size(self, mean, cap):
        """A geometric-like size: repeated 'continue' decisions, so that deleting choices shortens the sequence."""
        n = 0
        den = 1 << 16
        go = int(den * mean / (mean + 1.0))
        while n < cap and self.draw(den) >= den - go:
            n += 1
        return n

    def list(self, mean, cap, fn, lo=0):
        out = [fn(self) for _ in range(lo)]
        den = 1 << 16
        m = max(mean - lo, 0.2)
        go = int(den * m / (m + 1.0))
        while len(out) < cap and self.draw(den) >= den - go:
            out.append(fn(self))
        return out

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.draw(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq


def shrink(choices, fails, max_evals=600, max_seconds=60.0):
    """Greedy minimisation of a choice sequence. fails(choices) -> consumed choices (list) if it still fails, else None."""
    best = list(choices)
    t0 = time.monotonic()
    evals = 0
    seen = set()

    def attempt(cand):
        nonlocal best, evals
        key = tuple(cand)
        if key in seen:
            return False
        if evals >= max_evals or time.monotonic() - t0 > max_seconds:
            return False
        seen.add(key)
        evals += 1
        got = fails(list(cand))
        if got is None:
            return False
        got = list(got)
        if (len(got), got) < (len(best), best):
            best = got
            return True
        return False

    while True:
        before = list(best)
        k = max(1, len(best) // 2)
        while k >= 1:
            i = len(best) - k
            while i >= 0:
                if i + k <= len(best):
                    attempt(best[:i] + best[i + k:])
                i -= k
            k //= 2
        for k in (8, 4, 2, 1):
            i = 0
            while i + k <= len(best):
                if any(best[i:i + k]):
                    attempt(best[:i] + [0] * k + best[i + k:])
                i += k
        i = 0
        while i < len(best):
            v = best[i]
            lo = 0
            while i < len(best) and best[i] > lo:
                mid = (lo + best[i]) // 2
                if not attempt(best[:i] + [mid] + best[i + 1:]):
                    lo = mid + 1
            i += 1
        if best == before or evals >= max_evals or time.monotonic() - t0 > max_seconds:
            return best


class Violation(Exception):
    """A property is broken. info: JSON-able description; key: stable name of the failing input for known findings."""

    def __init__(self, what, info=None, key=None):
        super().__init__(what)
        self.what = what
        self.info = info or {}
        self.key = key


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def count(self, digest=None, nontrivial=False):
        self.evaluations += 1
        if nontrivial:
            if not isinstance(digest, (bytes, bytearray)):
                digest = str(digest).encode("utf-8", "surrogatepass")
            self.nontrivial.add(hashlib.blake2b(digest, digest_size=8).digest())

    def sample(self, s, limit=3):
        if len(self.samples) < limit:
            self.samples.append(s)

    def merge(self, o):
        self.evaluations += o.evaluations
        self.nontrivial |= o.nontrivial
        for k, v in o.labels.items():
            self.label(k, v)
        self.samples.extend(o.samples)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed

    def src(self, *parts):
        return Src(seed_of(self.seed, self.prop, *parts))

    @property
    def quick(self):
        return self.tier == "quick"


def _worker(args):
    mod, ctx, part = args
    import importlib
    m = importlib.import_module(mod)
    st = Stats()
    viols = []
    err = None
    t0 = time.monotonic()
    try:
        for v in m.run_part(ctx, part, st) or ():
            viols.append({"what": v.what, "info": v.info, "key": v.key})
            post(part, viols[-1])
    except Violation as v:
        v.info.setdefault("part", part)
        viols.append({"what": v.what, "info": v.info, "key": v.key})
        post(part, viols[-1])
    except Exception:
        err = traceback.format_exc()
    return part, st, viols, err, time.monotonic() - t0


def post(part, v):
    """Tells the parent about a violation before the partition ends."""
    fd, tmp = tempfile.mkstemp(prefix="viol-", suffix=".tmp")
    with os.fdopen(fd, "wb") as f:
        pickle.dump((part, v), f)
    os.rename(tmp, tmp[:-4] + ".posted")


def posted():
    out = []
    d = tempfile.gettempdir()
    for x in sorted(os.listdir(d)):
        if x.startswith("viol-") and x.endswith(".posted"):
            with open(os.path.join(d, x), "rb") as f:
                out.append(pickle.load(f))
    return out


def load_known():
    """Lines: 'known: property=<id> key=<key> <description>' and 'fixed: property=<id> <commit> <what failed>'."""
    known = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            words = line.split(None, 3)
            d = dict(w.split("=", 1) for w in words[1:3])
            known.append((d["property"], d["key"], words[3] if len(words) > 3 else ""))
    return known


def jsonable(x):
    if isinstance(x, (bytes, bytearray)):
        return "hex:" + bytes(x).hex() if any(b < 32 or b > 126 for b in x) else x.decode()
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        if isinstance(x, str):
            return x.encode("utf-8", "backslashreplace").decode()
        return x
    return repr(x)


def main(mod_name, prop, tier, seed):
    """Everything temporary goes in one directory, because workers may be terminated."""
    import shutil
    import tempfile
    old = tempfile.tempdir
    top = tempfile.mkdtemp(prefix="vp-run-")
    os.chmod(top, 0o755)
    tempfile.tempdir = top
    try:
        return explore(mod_name, prop, tier, seed)
    finally:
        tempfile.tempdir = old
        subprocess_cleanup()
        shutil.rmtree(top, ignore_errors=True)


def subprocess_cleanup():
    """Waits for the children of terminated workers to notice."""
    time.sleep(0.05)


def explore(mod_name, prop, tier, seed):
    import importlib
    t0 = time.monotonic()
    m = importlib.import_module(mod_name)
    ctx = Ctx(prop, tier, seed)
    if hasattr(m, "prepare"):
        m.prepare(ctx)
    parts = m.partitions(ctx)
    total = Stats()
    viols = []
    errors = []
    slow = 0.0
    limit = getattr(m, "MAX_VIOLATIONS", 4)
    done = set()
    first = None
    with multiprocessing.Pool(min(NPROC, max(1, len(parts))), maxtasksperchild=None) as pool:
        it = pool.imap_unordered(_worker, [(mod_name, ctx, p) for p in parts])
        while True:
            try:
                part, st, vs, err, dt = it.next(timeout=2)
            except StopIteration:
                break
            except multiprocessing.TimeoutError:
                # after the first violation, partitions in progress get some time to end
                found = posted()
                if found and first is None:
                    first = time.monotonic()
                if found and time.monotonic() - first > GRACE:
                    viols.extend(v for p, v in found if repr(p) not in done)
                    pool.terminate()
                    break
                continue
            done.add(repr(part))
            total.merge(st)
            slow = max(slow, dt)
            viols.extend(vs)
            if err:
                errors.append("partition %r:\n%s" % (part, err))
            if viols and first is None:
                first = time.monotonic()
            if len(viols) >= limit or len(errors) >= 3 or (viols and time.monotonic() - first > GRACE):
                pool.terminate()
                break
    known = load_known()
    reported = []
    suppressed = set()
    for v in viols:
        hit = [k for k in known if k[0] == prop and v["key"] is not None and k[1] == v["key"]]
        if hit:
            suppressed.add(hit[0])
        else:
            reported.append(v)
    # every listed finding of this property is demonstrated again on every run
    if hasattr(m, "known_cases"):
        cases = m.known_cases()
        for (p, key, desc) in known:
            if p != prop or key not in cases:
                continue
            if cases[key]():
                suppressed.add((p, key, desc))
            else:
                print("note: known finding %s of %s no longer fails" % (key, prop))
    for (p, key, desc) in sorted(suppressed):
        print("KNOWN-FINDING: property=%s %s: %s" % (p, key, desc))
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    for v in reported:
        blob = json.dumps(jsonable({"property": prop, "tier": tier, "seed": seed, **v}), indent=1, ensure_ascii=False)
        path = os.path.join(rdir, "%s-%s.json" % (prop, hashlib.sha256(blob.encode()).hexdigest()[:12]))
        with open(path, "w") as f:
            f.write(blob)
        print("%s: %s" % (prop, v["what"].encode("utf-8", "backslashreplace").decode()))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    rng = random.Random(seed)
    samples = list(total.samples)
    if len(samples) > 6:
        samples = [samples[i] for i in sorted(rng.sample(range(len(samples)), 6))]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total.evaluations,
            "distinct_nontrivial": len(total.nontrivial),
            "rule": m.RULE,
            "samples": jsonable(samples),
            "labels": dict(sorted(total.labels.items())),
            "partitions": len(parts),
        },
        "assumptions": getattr(m, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(reported),
    }
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d violations, %.1f s (slowest partition %.1f s)" % (
        prop, tier, seed, total.evaluations, len(total.nontrivial), len(reported), ev["wall_s"], slow))
    if reported:
        return 1
    if errors:
        for e in errors:
            sys.stderr.write(e + "\n")
        return 2
    # a check that explored nothing decided nothing
    if total.evaluations == 0 or not total.nontrivial:
        sys.stderr.write("nothing was explored\n")
        return 2
    return 0
