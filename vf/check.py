"""Common driver of all checks: obligations, violations, known findings, evidence."""
import json
import os
import sys
import time
import traceback

from . import build

VERIF = build.VERIF
EVID = os.environ.get("VF_EVID", os.path.join(VERIF, "evidence"))


class Check:
    def __init__(self, pid, level="other", technique="", rule="", trusted=(), assumptions=()):
        self.pid, self.level, self.technique, self.rule = pid, level, technique, rule
        self.trusted, self.assumptions = list(trusted), list(assumptions)
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.oblig = 0
        self.ok = 0
        self.undecided = []
        self.viol = []
        self.known_hit = []
        self.analysed = {}
        self.samples = []
        self.notes = []
        self.incomplete = None
        Check.current = self
        self.known = []
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            for e in json.load(open(kf)).get("findings", []):
                if e["property"] == pid:
                    self.known.append(e)

    def count(self, what, n=1):
        self.analysed[what] = self.analysed.get(what, 0) + n

    def sample(self, s):
        if len(self.samples) < 40:
            self.samples.append(s)

    def obligation(self, key, holds, where, detail, cfg=""):
        """one rule instance; `key` identifies it independently of source positions"""
        self.oblig += 1
        if holds is True:
            self.ok += 1
            return True
        if holds is None:
            self.undecided.append({"key": key, "where": where, "config": cfg, "why": detail})
            return True
        for e in self.known:
            if e["key"] == key:
                if e not in self.known_hit:
                    self.known_hit.append(e)
                return False
        self.viol.append({"key": key, "where": where, "config": cfg, "detail": detail})
        return False

    def finish(self, min_obligations=1, extra=None):
        if self.oblig < min_obligations and not self.viol:
            self.incomplete = f"only {self.oblig} obligations were found where {min_obligations} are usual"
        for e in self.known_hit:
            print(f"KNOWN-FINDING: property={self.pid} {e['what']}")
        seen = set()
        uniq = []
        for v in self.viol:
            k = (v["key"], v["where"])
            if k not in seen:
                seen.add(k)
                uniq.append(v)
        rc = 0
        if uniq:
            rc = 1
            os.makedirs(os.path.join(EVID), exist_ok=True)
            rp = os.path.join(EVID, f"{self.pid}.violations.txt")
            with open(rp, "w") as f:
                f.write(f"property {self.pid}\nrule: {self.rule}\n\n")
                for v in uniq:
                    f.write(f"* {v['where']} [{v['config']}]\n  instance: {v['key']}\n  {v['detail']}\n\n")
            for v in uniq[:20]:
                print(f"  {v['where']} [{v['config']}] {v['key']}: {v['detail']}")
            if len(uniq) > 20:
                print(f"  ... {len(uniq) - 20} more in {rp}")
            print(f"VIOLATION property={self.pid} replay={rp}")
        self.evidence(extra)
        und = f", {len(self.undecided)} undecided" if self.undecided else ""
        print(f"{self.pid}: {self.oblig} obligations, {self.ok} discharged{und}, {len(uniq)} violations "
              f"({time.time() - self.t0:.1f} s)")
        if self.incomplete:
            print(f"INCOMPLETE property={self.pid}: {self.incomplete}")
        if os.environ.get("VF_VERBOSE"):
            for u in self.undecided:
                print("  undecided:", u)
            print("  analysed:", self.analysed)
        sys.exit(rc)

    def evidence(self, extra=None):
        cov = {"explanation": f"{self.technique}. Rule: {self.rule}",
               "obligations": self.oblig, "discharged": self.ok,
               "undecided": len(self.undecided), "analysed": self.analysed, "samples": self.samples[:40]}
        if self.incomplete:
            cov["incomplete"] = self.incomplete
        if self.undecided:
            cov["undecided_instances"] = self.undecided[:40]
        if self.level == "proof":
            cov["checker_cmd"] = f"python3 /verif/checks/{self.pid}.py"
            cov["trusted_base"] = self.trusted or ["clang 18 front end", "LLVM 18 IR passes sroa/inline/simplifycfg",
                                                   "vf analysis engine"]
        if extra:
            cov.update(extra)
        ev = {"property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
              "seed": self.seed, "level": self.level, "coverage": cov, "wall_s": round(time.time() - self.t0, 2),
              "assumptions": self.assumptions,
              "violations": len(self.viol)}
        os.makedirs(os.path.join(EVID), exist_ok=True)
        with open(os.path.join(EVID, f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)


def children():
    out = []
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                if int(open(f"/proc/{p}/stat").read().rsplit(")", 1)[1].split()[1]) == os.getpid():
                    out.append(int(p))
            except OSError:
                pass
    return out


class Timeout(BaseException):
    pass


def main(fn):
    """Run a check. A tree that does not compile is an error (exit 2). Where the analysis gives up (a form of code that it does not
    understand, or its budget of time or memory), it has no verdict: nothing is reported as a violation, and the output and the
    evidence say that it is incomplete. On the unchanged tree this does not happen (gen/selftest.py)."""
    import resource
    import signal
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))

    def late(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, late)
    signal.alarm(int(os.environ.get("VF_BUDGET", "600")))
    try:
        fn()
    except SystemExit:
        raise
    except build.BuildError as e:
        print("ERROR: the tree does not compile in this configuration:", str(e)[-1500:])
        sys.exit(2)
    except (Exception, Timeout) as e:
        signal.alarm(0)
        traceback.print_exc()
        ck = getattr(Check, "current", None)
        if ck is None:
            sys.exit(2)
        for p in children():
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        ck.incomplete = f"the analysis gave up: {type(e).__name__} {str(e)[:300]}"
        try:
            ck.finish(0)
        except SystemExit as x:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(x.code)
