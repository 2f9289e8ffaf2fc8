"""A small property-based testing engine.

A test case is a function of a Source: a sequence of bounded integer choices.
Random search draws the choices from a PRNG seeded by (VERIF_SEED, property,
family, index); a failure is shrunk by deleting and lowering choices (as
Hypothesis does) and replayed from the choice sequence alone.
"""
import hashlib, json, multiprocessing, os, random, sys, time, traceback

from . import build as qbuild
from .driver import Driver, DriverDied, UnitUnavailable
from .xmltree import NotWellFormed

VERIF = qbuild.VERIF

class Fail(Exception):
    """The property does not hold for this case."""
    def __init__(self, msg, sig=None):
        Exception.__init__(self, msg)
        self.msg = msg
        self.sig = sig

class Discard(Exception):
    """The case is outside the property's domain."""

class Source:
    MAX = 20000
    def __init__(self, rng=None, choices=None):
        self.rng = rng
        self.given = choices
        self.choices = []
        self.spans = []
        self._open = []
        self.labels = {}
        self.nontrivial = False
        self.sample = None
        self.key = None

    def draw(self, n):
        """An integer in [0, n]."""
        i = len(self.choices)
        if i >= self.MAX:
            raise Discard("too many choices")
        if self.given is not None:
            v = min(self.given[i], n) if i < len(self.given) else 0
        else:
            v = self.rng.randint(0, n) if n > 0 else 0
        self.choices.append(v)
        return v

    def start(self):
        self._open.append(len(self.choices))
    def stop(self):
        a = self._open.pop()
        if len(self.choices) > a:
            self.spans.append((a, len(self.choices)))

    def int(self, lo, hi):
        return lo + self.draw(hi - lo)
    def bool(self, p=0.5):
        """True with probability p; False is the simpler value."""
        return self.draw(99) >= 100 - int(round(p * 100))
    def pick(self, seq):
        return seq[self.draw(len(seq) - 1)]
    def weighted(self, pairs):
        """pairs: [(weight, value)]; the first is the simplest."""
        total = sum(w for w, _ in pairs)
        k = self.draw(total - 1)
        for w, v in pairs:
            if k < w:
                return v
            k -= w
        return pairs[-1][1]
    def many(self, lo, hi, mean=None):
        """Yields a random number of times; each round is a span."""
        if mean is None:
            mean = (lo + hi) / 2.0
        p = 1 - 1.0 / (1 + max(mean - lo, 0.05))
        n = 0
        while n < hi:
            self.start()
            if n >= lo and not self.bool(min(0.97, p)):
                self.stop()
                return
            yield n
            self.stop()
            n += 1
    def text(self, alphabet, lo, hi, mean=None):
        out = []
        for _ in self.many(lo, hi, mean):
            out.append(alphabet[self.draw(len(alphabet) - 1)])
        return "".join(out)
    def bytes(self, lo, hi, mean=None, alphabet=None):
        out = bytearray()
        for _ in self.many(lo, hi, mean):
            if alphabet:
                c = alphabet[self.draw(len(alphabet) - 1)]
                out += c if isinstance(c, bytes) else bytes([c])
            else:
                out.append(self.draw(255))
        return bytes(out)
    def shuffled(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.draw(i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq
    def label(self, name):
        self.labels[name] = self.labels.get(name, 0) + 1

class Family:
    """A family of cases of one property: `fn(src, env)` generates one case,
    runs it and raises Fail if the property does not hold."""
    def __init__(self, name, fn, quick, thorough=None, rule="", unit=None):
        self.name, self.fn, self.quick = name, fn, quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.rule = rule
        self.unit = unit

class Env:
    """What a case may use: the driver."""
    def __init__(self, path):
        self.driver = Driver(path)
        self.cache = {}
    def unit(self, *a, **k):
        return self.driver.unit(*a, **k)
    def run(self, *a, **k):
        return self.driver.run(*a, **k)
    def close(self):
        self.driver.close()

def seed_for(seed, prop, family, index):
    h = hashlib.sha256(("%s/%s/%s/%s" % (seed, prop, family, index)).encode()).digest()
    return int.from_bytes(h[:8], "big")

def execute(fam, src, env):
    """Returns None (held), 'discard', or a Fail."""
    try:
        fam.fn(src, env)
        return None
    except Discard:
        return "discard"
    except Fail as e:
        return e
    except (ValueError, LookupError, TypeError, AttributeError, NotWellFormed) as e:
        # The outcome hasn't the form that the check relies on: output that
        # isn't UTF-8 or well-formed, a file that wasn't written, ...
        return Fail("the outcome cannot be read: %s: %s\n%s\n%s" % (
            type(e).__name__, e, "".join(traceback.format_tb(e.__traceback__)[-3:]), src.sample or src.key or ""), sig="unreadable")
    except DriverDied as e:
        return Fail("the code under test crashed or hung in process: " + e.msg, sig="crash")

def same_failure(a, b):
    return isinstance(a, Fail) and isinstance(b, Fail) and (a.sig is None or b.sig is None or a.sig == b.sig)

def shrink(fam, choices, spans, fail, env, budget):
    """Minimises a failing choice sequence."""
    end = time.monotonic() + budget
    best, best_spans, best_fail = list(choices), list(spans), fail
    tried = set()
    def attempt(cand):
        nonlocal best, best_spans, best_fail
        key = tuple(cand)
        if key in tried or time.monotonic() > end:
            return False
        tried.add(key)
        s = Source(choices=cand)
        r = execute(fam, s, env)
        if same_failure(best_fail, r):
            got = s.choices
            # strip trailing zeros: they are implied
            while got and got[-1] == 0:
                got = got[:-1]
            if (len(got), got) < (len(best), best):
                best, best_spans, best_fail = list(got), s.spans, r
                return True
        return False
    improved = True
    while improved and time.monotonic() < end:
        improved = False
        # delete spans, largest first
        for a, b_ in sorted(set(best_spans), key=lambda t: t[0] - t[1]):
            if b_ <= len(best) and attempt(best[:a] + best[b_:]):
                improved = True
                break
        if improved:
            continue
        # delete chunks
        for size in (8, 4, 2, 1):
            i = len(best) - size
            while i >= 0 and time.monotonic() < end:
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                i -= size
        # zero chunks
        for size in (8, 4, 2):
            i = 0
            while i + size <= len(best):
                if any(best[i:i + size]) and attempt(best[:i] + [0] * size + best[i + size:]):
                    improved = True
                i += size
        # lower single values
        i = 0
        while i < len(best) and time.monotonic() < end:
            v = best[i]
            if v:
                if attempt(best[:i] + [0] + best[i + 1:]):
                    improved = True
                else:
                    lo, hi = 0, v
                    while hi - lo > 1 and i < len(best):
                        mid = (lo + hi) // 2
                        if attempt(best[:i] + [mid] + best[i + 1:]):
                            improved = True
                            hi = best[i] if i < len(best) else mid
                        else:
                            lo = mid
            i += 1
    return best, best_fail

def _worker(args):
    (prop_id, fams, worker, nworkers, seed, tier, path, deadline, shrink_budget, stop, outq) = args
    env = Env(path)
    stats = {}
    distinct = set()
    samples = {}
    failures = []
    try:
        for fam in fams:
            n = fam.quick if tier == "quick" else fam.thorough
            n = max(1, int(n * float(os.environ.get("QV_SCALE", "1"))))
            st = stats.setdefault(fam.name, {"planned": 0, "evaluations": 0, "discarded": 0, "nontrivial": 0,
                                             "labels": {}, "unavailable": 0, "seconds": 0.0})
            t0 = time.monotonic()
            nfail = 0
            for i in range(worker, n, nworkers):
                st["planned"] += 1
                if stop.is_set() or time.monotonic() > deadline:
                    continue
                src = Source(rng=random.Random(seed_for(seed, prop_id, fam.name, i)))
                try:
                    r = execute(fam, src, env)
                except UnitUnavailable:
                    st["unavailable"] += 1
                    break
                if r == "discard":
                    st["discarded"] += 1
                    continue
                st["evaluations"] += 1
                for k in src.labels:
                    st["labels"][k] = st["labels"].get(k, 0) + 1
                if src.nontrivial:
                    st["nontrivial"] += 1
                    key = src.key if src.key is not None else repr(src.choices)
                    if not isinstance(key, bytes):
                        key = key.encode("utf-8", "replace")
                    distinct.add(hashlib.blake2b(fam.name.encode() + b"\0" + key, digest_size=8).digest())
                    if src.sample is not None and len(samples.setdefault(fam.name, [])) < 2:
                        samples[fam.name].append(src.sample)
                if isinstance(r, Fail):
                    # Stop the others, minimise, report.
                    nfail += 1
                    best, bf = shrink(fam, src.choices, src.spans, r, env, shrink_budget)
                    failures.append({"family": fam.name, "index": i, "choices": best,
                                     "original": src.choices, "msg": bf.msg, "sig": bf.sig})
                    stop.set()
                    break
            st["seconds"] += time.monotonic() - t0
    except Exception:
        failures.append({"family": "?", "error": traceback.format_exc()})
    finally:
        env.close()
    outq.put((worker, stats, list(distinct), samples, failures))

def run_property(prop, tier, seed, out=sys.stdout):
    """Runs all families of a property; returns the exit status."""
    t0 = time.time()
    path, skipped = qbuild.build("san")
    build_s = time.time() - t0
    nworkers = int(os.environ.get("QV_WORKERS", str(min(8, os.cpu_count() or 4))))
    budget = float(os.environ.get("QV_BUDGET", "420" if tier == "quick" else "7200"))
    fams = prop["families"]
    only = os.environ.get("QV_FAMILY")
    if only:
        fams = [f for f in fams if f.name in only.split(",")]
    known_lines, suppressed = [], {}
    env = Env(path)
    try:
        avail = env.driver.commands()
        for kf in load_known(prop["id"]):
            fn = prop.get("known", {}).get(kf["id"])
            if fn is None:
                continue
            try:
                still = fn(env)
            except DriverDied:
                still = True
            except UnitUnavailable:
                still = True
            if still:
                known_lines.append("KNOWN-FINDING: property=%s %s" % (prop["id"], kf["what"]))
    finally:
        env.close()
    ctx = multiprocessing.get_context("fork")
    stop = ctx.Event()
    outq = ctx.Queue()
    deadline = time.monotonic() + budget
    procs = []
    for w in range(nworkers):
        p = ctx.Process(target=_worker, args=((prop["id"], fams, w, nworkers, seed, tier, path, deadline,
                                               float(os.environ.get("QV_SHRINK", "25")), stop, outq),))
        p.start()
        procs.append(p)
    results = []
    while len(results) < nworkers:
        try:
            results.append(outq.get(timeout=5))
        except Exception:
            if all(not p.is_alive() for p in procs) and outq.empty():
                break
    for p in procs:
        p.join(timeout=10)
        if p.is_alive():
            p.kill()
    errors = []
    if len(results) < nworkers:
        errors.append("a worker ended without a result")
    stats, distinct, samples, failures = {}, set(), {}, []
    for w, st, ds, sm, fl in sorted(results, key=lambda r: r[0]):
        for name, s in st.items():
            d = stats.setdefault(name, {"planned": 0, "evaluations": 0, "discarded": 0, "nontrivial": 0,
                                        "labels": {}, "unavailable": 0, "seconds": 0.0})
            for k in ("planned", "evaluations", "discarded", "nontrivial", "unavailable"):
                d[k] += s[k]
            d["seconds"] = round(max(d["seconds"], s["seconds"]), 2)
            for k, v in s["labels"].items():
                d["labels"][k] = d["labels"].get(k, 0) + v
        distinct.update(ds)
        for k, v in sm.items():
            samples.setdefault(k, []).extend(v)
        for f in fl:
            if "error" in f:
                errors.append(f["error"])
            else:
                failures.append(f)
    # Confirm failures on fresh drivers: only what replays counts.
    violations, flaky = [], []
    fam_by_name = {f.name: f for f in fams}
    failures.sort(key=lambda f: len(f["choices"]))
    for f in failures[:4]:
        fam = fam_by_name[f["family"]]
        ok = 0
        last = None
        for choices in ([f["choices"]] * 3):
            env = Env(path)
            try:
                r = execute(fam, Source(choices=choices), env)
            finally:
                env.close()
            if isinstance(r, Fail):
                ok += 1
                last = r
        if ok == 3:
            f["msg"] = last.msg
            violations.append(f)
        else:
            f["replayed"] = ok
            flaky.append(f)
    replay_path = None
    if violations:
        v = violations[0]
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        h = hashlib.sha256(json.dumps([v["family"], v["choices"]]).encode()).hexdigest()[:12]
        replay_path = os.path.join(rd, "%s-%s-%s.json" % (prop["id"], v["family"], h))
        with open(replay_path, "w") as fo:
            json.dump({"property": prop["id"], "family": v["family"], "seed": seed, "index": v["index"],
                       "choices": v["choices"], "message": v["msg"],
                       "how": "python3 /verif/check.py --replay " + replay_path}, fo, indent=1)
            fo.write("\n")
    smp = []
    for name in [f.name for f in fams]:
        for s in samples.get(name, [])[:2]:
            s = s if isinstance(s, str) else repr(s)
            smp.append({"family": name, "case": s[:1500]})
    ev = {
        "property": prop["id"], "tier": tier, "seed": seed, "level": "exploration",
        "wall_s": round(time.time() - t0, 2),
        "coverage": {
            "evaluations": sum(s["evaluations"] for s in stats.values()),
            "distinct_nontrivial": len(distinct),
            "rule": prop["rule"],
            "samples": smp,
            "families": {n: {k: v for k, v in s.items()} for n, s in stats.items()},
            "family_rules": {f.name: f.rule for f in fams if f.rule},
            "build_s": round(build_s, 2),
            "adapters_not_built": [n for n, _ in skipped],
            "known_findings": known_lines,
            "unconfirmed": [{"family": f["family"], "msg": f["msg"][:500]} for f in flaky],
        },
    }
    ev["coverage"].update(prop.get("extra_evidence", lambda: {})())
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evp = os.path.join(VERIF, "evidence", prop["id"] + ".json")
    with open(evp + ".tmp", "w") as fo:
        json.dump(ev, fo, indent=1, ensure_ascii=True)
        fo.write("\n")
    os.replace(evp + ".tmp", evp)
    for line in known_lines:
        print(line, file=out)
    for n, s in stats.items():
        print("%s %s: %d cases, %d discarded, %d non-trivial, %.1fs%s" % (
            prop["id"], n, s["evaluations"], s["discarded"], s["nontrivial"], s["seconds"],
            "" if s["evaluations"] + s["discarded"] >= s["planned"] else
            " (%d planned)" % s["planned"]), file=out)
    for n, err in skipped:
        print("note: adapter %s does not build against this tree; its unit-level cases were not run" % n, file=out)
    for f in flaky:
        print("note: unconfirmed (replayed %d/3): %s %s" % (f["replayed"], f["family"], f["msg"][:800]), file=out)
    if violations:
        v = violations[0]
        print("--- %s / %s" % (prop["id"], v["family"]), file=out)
        print(v["msg"][:6000], file=out)
        print("VIOLATION property=%s replay=%s" % (prop["id"], replay_path), file=out)
        out.flush()
        return 1
    if errors:
        print("check error:\n" + "\n".join(errors)[:4000], file=out)
        return 2
    total = sum(s["evaluations"] for s in stats.values())
    if total == 0:
        print("check error: nothing was evaluated", file=out)
        return 2
    print("%s held on %d cases (%d distinct non-trivial), %.1fs" % (
        prop["id"], total, len(distinct), time.time() - t0), file=out)
    return 0

def load_known(prop_id):
    p = os.path.join(VERIF, "known_findings.json")
    try:
        data = json.load(open(p))
    except OSError:
        return []
    return [k for k in data.get("known", []) if k["property"] == prop_id]

def replay(prop, family, choices, times=1):
    path, _ = qbuild.build("san")
    fam = [f for f in prop["families"] if f.name == family][0]
    for _ in range(times):
        env = Env(path)
        try:
            src = Source(choices=choices)
            r = execute(fam, src, env)
        finally:
            env.close()
        if isinstance(r, Fail):
            print(r.msg)
            print("VIOLATION property=%s replay=-" % prop["id"])
            return 1
        print("held" if r is None else "discarded")
        if src.sample:
            print(src.sample)
    return 0
