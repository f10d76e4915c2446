"""Command line, verdicts, evidence files and the known-findings file."""
from __future__ import annotations

import json
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known_findings.txt")
LIMIT_S = float(os.environ.get("SA_LIMIT_S", "600"))      # of one check
EVID = os.environ.get("SA_EVID") or os.path.join(VERIF, "evidence")


class Result:
    """What one check found and what it covered."""

    current = None                  # the result of the check that is running

    def __init__(self, rule):
        Result.current = self
        self.rule = rule            # the rule applied, one paragraph
        self.findings = []          # codec.Finding
        self.undecided = []         # strings
        self.stats = {}             # measured counts
        self.samples = []           # analysed constructs, written out
        self.obligations = 0
        self.discharged = 0

    def ob(self, ok, sample=None):
        self.obligations += 1
        if ok:
            self.discharged += 1
        if sample is not None and len(self.samples) < 12:
            self.samples.append(sample)
        return ok

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def finding(self, rule, construct, msg, where="", line=0, file=""):
        from .codec import Finding
        f = Finding(rule, construct, msg, where, line, file)
        if all(g.key != f.key for g in self.findings):
            self.findings.append(f)
        return f

    def undecide(self, s):
        if s not in self.undecided:
            self.undecided.append(s)


def known():
    """{property: {key: text}} of recorded, unrepaired defects."""
    out = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN, encoding="utf-8"):
            ln = ln.strip()
            if not ln.startswith("finding:"):
                continue
            head, _, text = ln[len("finding:"):].partition(" -- ")
            parts = dict(p.split("=", 1) for p in head.split() if "=" in p)
            out.setdefault(parts["property"], {})[parts["key"]] = text.strip()
    return out


def rel(path):
    return os.path.relpath(path, REPO) if path and os.path.isabs(path) else (path or "")


class Deadline(BaseException):
    """The check's time is up."""


def guarded(fn, prog, tier):
    """The check's result; what it found so far, and what stopped it, if it
    cannot finish in time and memory."""
    def up(*_):
        raise Deadline

    Result.current = None
    old = signal.signal(signal.SIGALRM, up)
    signal.setitimer(signal.ITIMER_REAL, LIMIT_S)
    try:
        r = fn(prog, tier)
        signal.setitimer(signal.ITIMER_REAL, 0)
        return r
    except (Deadline, Exception) as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        if not isinstance(e, (Deadline, MemoryError)):
            traceback.print_exc()
        r = Result.current or Result("")
        why = f"no answer within {LIMIT_S} s" if isinstance(e, Deadline) else f"{type(e).__name__} in the analysis: {e}"
        r.ob(False)
        r.undecide(f"the check did not finish: {why}")
        prog._trips = None
        return r
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def run_check(pid, fn, prog, tier, seed):
    t0 = time.time()
    r = guarded(fn, prog, tier)
    kn = known().get(pid, {})
    new, old = [], []
    for f in r.findings:
        (old if f.key in kn else new).append(f)
    stale = sorted(set(kn) - {f.key for f in old})
    os.makedirs(EVID, exist_ok=True)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": r.rule,
            "obligations": r.obligations, "discharged": r.discharged,
            "analysed": r.stats,
            "samples": r.samples[:12],
            "undecided": r.undecided[:40], "undecided_count": len(r.undecided),
            "violations": [repr(f) for f in new],
            "known_findings": [repr(f) for f in old],
            "known_findings_not_seen": stale,
        },
        "wall_s": round(time.time() - t0 + getattr(prog, "load_s", 0), 3),
    }
    with open(os.path.join(EVID, f"{pid}.json"), "w", encoding="utf-8") as fh:
        json.dump(ev, fh, indent=1, default=str)
        fh.write("\n")
    for f in old:
        print(f"KNOWN-FINDING: property={pid} {f.key} {kn[f.key] or f.msg}")
    print(f"{pid}: {r.discharged}/{r.obligations} obligations, {json.dumps(r.stats)}, {len(r.undecided)} undecided, "
          f"{len(old)} known, {len(new)} new")
    for u in r.undecided[:10]:
        print(f"  undecided: {u[:300]}")
    if new:
        rp = os.path.join(EVID, f"{pid}.replay.txt")
        with open(rp, "w", encoding="utf-8") as fh:
            for f in new:
                fh.write(f"{f.key}\n    {rel(f.file)}:{f.line} in {f.where}\n    {f.msg}\n")
        for f in new[:20]:
            print(f"  {f.key}  {rel(f.file)}:{f.line} in {f.where}: {f.msg[:600]}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 0


def main(argv):
    from .checks import CHECKS
    ids = [a for a in argv if not a.startswith("-")]
    if not ids or ids == ["all"]:
        ids = sorted(CHECKS)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    sys.setrecursionlimit(20000)
    rc = 0
    from .codec import Program
    t0 = time.time()
    try:
        prog = Program(REPO)
        prog.load_s = time.time() - t0
    except Exception:
        traceback.print_exc()
        print("cannot analyse the source tree")
        return 2
    for i in ids:
        if i not in CHECKS:
            print(f"unknown property {i}")
            return 2
        try:
            prog.I.prims = prog.prims
            rc = max(rc, run_check(i, CHECKS[i], prog, tier, seed))
        except Exception:
            traceback.print_exc()
            print(f"{i}: the check could not finish")
            rc = 2
    return rc
