"""
Exhaustive-exploration engine shared by all checks.

A check is a module with:

  PROPERTY   the property id
  TITLE      short text
  BOUND(tier)   text: what is enumerated
  cases(tier)   deterministic iterator of JSON-able cases, simplest first
  run_case(case, env) -> Result    executes the real modulegraph2 code and
                                   compares with the oracle

The engine enumerates *every* case (split over worker processes by index),
counts distinct canonical states and transitions, stops at the first
(lowest-index) violation, writes a replay file and the evidence file.
"""

import contextlib
import faulthandler
import hashlib
import importlib
import json
import os
import pickle
import re
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zipimport
import mmap

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_TIMEOUT = 60  # seconds of CPU time, per case, before "does not terminate"
HARD_TIMEOUT = 400  # seconds of wall time
MEM_LIMIT = 4 << 30


class Violation(Exception):
    """The property does not hold; *key* identifies the failing input."""

    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key


class CaseTimeout(BaseException):
    pass


class Result:
    __slots__ = ("states", "transitions", "outcome", "traces", "findings")

    def __init__(self):
        self.states = []
        self.transitions = 0
        self.traces = 1
        self.outcome = None
        self.findings = []

    def state(self, obj):
        text = json.dumps(obj, sort_keys=True, default=repr)
        # the scratch directory of the worker is not part of the state
        self.states.append(stable_hash(re.sub(r"/mgmc-[^/\"]+(/c\d+)?", "/@", text)))

    def step(self, n=1):
        self.transitions += n


def stable_hash(obj):
    if not isinstance(obj, (bytes, str)):
        obj = json.dumps(obj, sort_keys=True, default=repr)
    if isinstance(obj, str):
        obj = obj.encode("utf-8", "surrogatepass")
    return int.from_bytes(hashlib.blake2b(obj, digest_size=8).digest(), "big")


def expect(cond, message, key=None):
    if not cond:
        raise Violation(message, key)


def expect_eq(got, want, what, key=None):
    if got != want:
        raise Violation(f"{what}: got {show(got)}, expected {show(want)}", key)


def show(obj):
    if isinstance(obj, (set, frozenset)):
        try:
            return "{" + ", ".join(repr(x) for x in sorted(obj)) + "}"
        except TypeError:
            return repr(obj)
    return repr(obj)


# ---------------------------------------------------------------- environment

#: stdlib modules that may lazily be imported by the code under test; they are
#: loaded once so that purging sys.modules between cases stays cheap.
PRELOAD = """
argparse ast bisect collections contextlib csv dataclasses dis email.parser enum
functools html html.parser importlib.abc importlib.machinery importlib.util
importlib.metadata importlib.resources inspect io itertools json keyword linecache locale
operator os pathlib pkgutil posixpath py_compile queue re runpy shlex shutil
string symtable sys tempfile textwrap threading token tokenize traceback types
typing unicodedata urllib.parse warnings weakref zipfile zipimport zlib gettext
encodings.latin_1 encodings.ascii encodings.cp1252 encodings.utf_8_sig
encodings.iso8859_15 encodings.utf_16 encodings.idna email.feedparser email.message
email.generator email.utils stat struct select selectors glob fnmatch copy copyreg
""".split()


class Env:
    """Per-worker execution environment: scratch directories, clean import state."""

    def __init__(self):
        base = None
        for cand in ("/dev/shm", "/tmp"):
            if os.path.isdir(cand) and os.access(cand, os.W_OK | os.X_OK):
                base = cand
                break
        self.root = tempfile.mkdtemp(prefix="mgmc-", dir=base)
        self.counter = 0
        import modulegraph2  # noqa

        assert os.path.realpath(modulegraph2.__file__).startswith(
            os.path.realpath(REPO) + os.sep
        ), modulegraph2.__file__
        for nm in PRELOAD:
            importlib.import_module(nm)
        import pkgutil

        for m in pkgutil.walk_packages(modulegraph2.__path__, "modulegraph2."):
            if not m.name.endswith("__main__"):
                importlib.import_module(m.name)

        self.stdlib_path = [
            p
            for p in sys.path
            if p and os.path.isdir(p) and "python3" in p and "site-packages" not in p
            and "dist-packages" not in p and "/opt/venv" not in p
        ]
        self.base_path = list(sys.path)
        self.base_meta = list(sys.meta_path)
        self.base_hooks = list(sys.path_hooks)
        self.base_modules = dict(sys.modules)
        self.base_main = sys.modules.get("__main__")

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def purge(self):
        """Restore the import system to the state at worker start"""
        mods = sys.modules
        base = self.base_modules
        if len(mods) != len(base) or any(
            mods.get(k) is not v for k, v in base.items()
        ):
            for nm in list(mods):
                if nm not in base:
                    del mods[nm]
            for nm, m in base.items():
                if mods.get(nm) is not m:
                    mods[nm] = m
        sys.meta_path[:] = self.base_meta
        sys.path_hooks[:] = self.base_hooks
        for cache in (sys.path_importer_cache, getattr(zipimport, "_zip_directory_cache", {})):
            for k in list(cache):
                if k.startswith(self.root) or not os.path.isabs(k):
                    del cache[k]

    @contextlib.contextmanager
    def case(self, extra_path=(), chdir=False, subdirs=None):
        """
        A fresh scratch directory that is the first entry on sys.path
        (or *subdirs* of it, when given).
        """
        self.counter += 1
        path = os.path.join(self.root, f"c{self.counter}")
        os.mkdir(path)
        if subdirs is None:
            entries = [path]
        else:
            entries = [os.path.join(path, d) for d in subdirs]
        sys.path[:] = entries + list(extra_path) + self.stdlib_path
        old_cwd = os.getcwd()
        if chdir:
            os.chdir(path)
        try:
            yield path
        finally:
            os.chdir(old_cwd)
            sys.path[:] = self.base_path
            self.purge()
            # *path* is a full path below the scratch directory made above
            shutil.rmtree(path, ignore_errors=True)


# --------------------------------------------------------------------- worker


def _on_alarm(signum, frame):
    raise CaseTimeout()


def exec_case(check, case, env):
    """Run one case, returns (Result|None, violation-dict|None)"""
    signal.signal(signal.SIGPROF, _on_alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_TIMEOUT)
    reclimit = sys.getrecursionlimit()
    try:
        try:
            res = check.run_case(case, env)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            sys.setrecursionlimit(reclimit)
    except Violation as exc:
        return None, {"message": str(exc), "key": exc.key, "kind": "property"}
    except CaseTimeout:
        return None, {
            "message": f"did not terminate within {CASE_TIMEOUT} s (CPU time)",
            "key": None,
            "kind": "timeout",
        }
    except SystemExit as exc:
        return None, {
            "message": f"unexpected SystemExit({exc.code!r})",
            "key": None,
            "kind": "exception",
            "traceback": traceback.format_exc(),
        }
    except KeyboardInterrupt:
        raise
    except BaseException as exc:
        return None, {
            "message": f"unexpected {type(exc).__name__}: {exc}",
            "key": None,
            "kind": "exception",
            "traceback": traceback.format_exc(),
        }
    finally:
        try:
            env.purge()
        except Exception:
            pass
    return res, None


class Slots:
    """
    Progress of the workers, in memory that is shared with the parent. Every
    field is written with one store (struct.pack_into clears the buffer first).
    """

    def __init__(self, n):
        self._mem = mmap.mmap(-1, 8 + 16 * n)
        self._q = memoryview(self._mem).cast("q")
        self._d = memoryview(self._mem).cast("d")
        self._q[0] = 1 << 60

    @property
    def best(self):
        return self._q[0]

    def lower(self, idx):
        if idx < self._q[0]:
            self._q[0] = idx

    def set(self, k, idx, when):
        self._d[2 + 2 * k] = when
        self._q[1 + 2 * k] = idx

    def get(self, k):
        return self._q[1 + 2 * k], self._d[2 + 2 * k]


def worker(check, tier, k, n, slots, outfile, known, deadline, skip):
    t0 = time.time()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    faulthandler.enable()
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    out = {
        "cases": 0,
        "traces": 0,
        "transitions": 0,
        "states": set(),
        "outcomes": {},
        "samples": [],
        "violation": None,
        "known": [],
        "truncated": False,
        "error": None,
    }
    env = None
    try:
        if hasattr(check, "prepare"):
            check.prepare(tier)
        env = Env()
        if hasattr(check, "setup_env"):
            check.setup_env(env)
        relevant = getattr(check, "relevant", None)
        for idx, case in enumerate(check.cases(tier)):
            if (idx * 2654435761 >> 9) % n != k or idx in skip:
                continue
            if relevant is not None and not relevant(case):
                continue
            best = slots.best
            if idx > best:
                break
            if time.time() > deadline:
                out["truncated"] = True
                break
            slots.set(k, idx, time.time())
            res, viol = exec_case(check, case, env)
            out["cases"] += 1
            if viol is not None:
                viol["case"] = case
                viol["index"] = idx
                if viol["key"] is not None and viol["key"] in known:
                    out["known"].append((viol["key"], viol["message"]))
                    continue
                out["violation"] = viol
                slots.lower(idx)
                break
            for key, msg in res.findings:
                out["known"].append((key, msg))
            out["traces"] += res.traces
            out["transitions"] += res.transitions
            out["states"].update(res.states)
            oc = str(res.outcome)
            out["outcomes"][oc] = out["outcomes"].get(oc, 0) + 1
            if out["outcomes"][oc] == 1 and len(out["samples"]) < 4:
                out["samples"].append({"case": case, "outcome": oc})
    except BaseException:
        out["error"] = traceback.format_exc()
    finally:
        if env is not None:
            env.close()
    slots.set(k, -2, time.time())
    if os.environ.get("MC_DEBUG"):
        t = os.times()
        print(f"worker {k}: cases={out['cases']} wall={time.time()-t0:.1f} user={t.user:.1f} sys={t.system:.1f}", file=sys.stderr)
    with open(outfile + ".tmp", "wb") as fp:
        pickle.dump(out, fp)
    os.rename(outfile + ".tmp", outfile)


def load_known(pid):
    known = {}
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        with open(path) as fp:
            for ln in fp:
                ln = ln.strip()
                if not ln or ln.startswith("#") or not ln.startswith("{"):
                    continue
                rec = json.loads(ln)
                if rec.get("property") == pid and rec.get("status") == "known":
                    known[rec["key"]] = rec["what"]
    return known


def explore(check, tier, nproc=None, deadline_s=None):
    nproc = nproc or int(os.environ.get("VERIF_PROCS", min(8, os.cpu_count() or 1)))
    if deadline_s is None:
        deadline_s = 600 if tier == "quick" else 5400
    t0 = time.time()
    known = load_known(check.PROPERTY)
    tmp = tempfile.mkdtemp(prefix="mgmc-run-")
    slots = Slots(nproc)
    procs = {}
    violations = []
    deaths = {}
    skips = {k: set() for k in range(nproc)}
    outs = {}

    def start(k):
        slots.set(k, -1, time.time())
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                worker(
                    check, tier, k, nproc, slots, os.path.join(tmp, f"w{k}"),
                    known, t0 + deadline_s, skips[k],
                )
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        procs[pid] = k

    def note_death(k, why):
        idx, _ = slots.get(k)
        if idx < 0:
            raise RuntimeError(f"worker {k} died outside a case: {why}")
        deaths[idx] = deaths.get(idx, 0) + 1
        if deaths[idx] >= 2:
            violations.append(
                {"message": f"interpreter {why} while running this case",
                 "key": None, "kind": "crash", "index": idx, "case": nth(check, tier, idx)}
            )
            slots.lower(idx)
            skips[k].add(idx)
        start(k)

    try:
        for k in range(nproc):
            start(k)
        while procs:
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                now = time.time()
                for p, k in list(procs.items()):
                    idx, t = slots.get(k)
                    if idx >= 0 and now - t > HARD_TIMEOUT and slots.get(k) == (idx, t):
                        os.kill(p, signal.SIGKILL)
                time.sleep(0.02)
                continue
            k = procs.pop(pid, None)
            if k is None:
                continue
            fn = os.path.join(tmp, f"w{k}")
            if status == 0 and os.path.exists(fn):
                with open(fn, "rb") as fp:
                    outs[k] = pickle.load(fp)
            else:
                note_death(k, f"died (status {status})")
    finally:
        for p in procs:
            with contextlib.suppress(OSError):
                os.kill(p, signal.SIGKILL)
        shutil.rmtree(tmp, ignore_errors=True)

    total = {
        "cases": 0, "traces": 0, "transitions": 0, "states": set(), "outcomes": {},
        "samples": [], "known": {}, "truncated": False,
    }
    for k in sorted(outs):
        o = outs[k]
        if o["error"]:
            # An exception in the engine or in the enumeration itself, or the code under
            # test cannot even be imported.
            raise RuntimeError(o["error"])
        total["cases"] += o["cases"]
        total["traces"] += o["traces"]
        total["transitions"] += o["transitions"]
        total["states"] |= o["states"]
        total["truncated"] |= o["truncated"]
        for oc, c in o["outcomes"].items():
            total["outcomes"][oc] = total["outcomes"].get(oc, 0) + c
        total["samples"] += o["samples"]
        for key, msg in o["known"]:
            total["known"].setdefault(key, msg)
        if o["violation"]:
            violations.append(o["violation"])
    total["violations"] = sorted(violations, key=lambda v: v["index"])
    total["wall_s"] = time.time() - t0
    return total


def nth(check, tier, idx):
    for i, c in enumerate(check.cases(tier)):
        if i == idx:
            return c
    return None


def write_replay(check, viol, tier):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(
        d, f"{check.PROPERTY}-{stable_hash([viol['case'], viol['message']]):016x}.json"
    )
    with open(path, "w") as fp:
        json.dump(
            {
                "property": check.PROPERTY,
                "tier": tier,
                "check": check.__name__,
                "case": viol["case"],
                "message": viol["message"],
                "kind": viol["kind"],
                "traceback": viol.get("traceback"),
                "replay_cmd": f"cd {VERIF} && bin/check --replay {path}",
            },
            fp,
            indent=1,
            default=repr,
        )
    return path


def main(check, tier):
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    total = explore(check, tier)
    n_viol = len(total["violations"])
    level = getattr(check, "LEVEL", "model_checking")
    samples = sorted(total["samples"], key=lambda s: len(json.dumps(s, default=repr)))
    coverage = {
        "states": len(total["states"]),
        "transitions": total["transitions"],
        "traces_validated_against_impl": total["traces"],
        "cases_enumerated": total["cases"],
        "distinct_outcomes": len(total["outcomes"]),
        "samples": samples[:6],
        "exhaustive": not total["truncated"] and not n_viol,
        "rule": check.BOUND(tier),
    }
    if len(total["outcomes"]) <= 40:
        coverage["outcomes"] = total["outcomes"]
    if total["known"]:
        coverage["known_findings"] = sorted(total["known"])
    evidence = {
        "property": check.PROPERTY,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": coverage,
        "assumptions": list(getattr(check, "ASSUMPTIONS", [])),
        "wall_s": round(total["wall_s"], 2),
        "violations": n_viol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = os.path.join(VERIF, "evidence", f"{check.PROPERTY}.json")
    with open(ev + ".tmp", "w") as fp:
        json.dump(evidence, fp, indent=1, default=repr)
        fp.write("\n")
    os.rename(ev + ".tmp", ev)
    print(
        f"{check.PROPERTY} [{tier}] {check.TITLE}: cases={total['cases']} "
        f"states={coverage['states']} transitions={coverage['transitions']} "
        f"traces={coverage['traces_validated_against_impl']} "
        f"outcomes={len(total['outcomes'])} exhaustive={coverage['exhaustive']} "
        f"wall={evidence['wall_s']}s"
    )
    for key in sorted(total["known"]):
        print(
            f"KNOWN-FINDING: property={check.PROPERTY} [{key}] {total['known'][key]}"
        )
    if n_viol:
        v = total["violations"][0]
        path = write_replay(check, v, tier)
        print(f"case: {json.dumps(v['case'], default=repr)[:2000]}")
        print(f"why:  {v['message'][:3000]}")
        if v.get("traceback"):
            print(v["traceback"][-3000:])
        print(f"VIOLATION property={check.PROPERTY} replay={path}")
        return 1
    return 0


def broken_import(pid, exc_text):
    """The package cannot even be imported: nothing the properties promise works."""
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-import.json")
    with open(path, "w") as fp:
        json.dump({"property": pid, "message": exc_text}, fp)
    print(exc_text)
    print(f"VIOLATION property={pid} replay={path}")
    return 1
