"""Running a check: fresh facts from /repo's source, obligations, known findings, evidence."""
import atexit, json, os, shutil, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("TW_REPO", "/repo")
CRATES = ["tinywasm_types", "tinywasm_parser", "tinywasm", "tinywasm_cli"]


class Missing(Exception):
    """an anchor the rules need is not in the code"""


class ExtractError(Exception):
    pass


def extract(cargo_args=("-p", "tinywasm", "-p", "tinywasm-cli"), crates=None):
    """facts of the current working tree; every call compiles it afresh"""
    from db import DB
    pre = os.environ.get("TW_FACTS")     # development only: reuse a facts directory
    if pre and cargo_args[0] == "stub":
        pre = pre.rstrip("/") + "2"
    if pre:
        return DB(pre, [c for c in (crates or CRATES) if os.path.exists(os.path.join(pre, c + ".json"))])
    tmp = tempfile.mkdtemp(prefix="twfacts.")
    atexit.register(shutil.rmtree, tmp, True)
    facts, tgt = os.path.join(tmp, "facts"), os.path.join(tmp, "tgt")
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN"):
        env.pop(k, None)
    drv = os.path.join(VERIF, "driver", "target")
    r = subprocess.run([os.path.join(HERE, "extract.sh"), facts, tgt, drv, REPO, *cargo_args],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    shutil.rmtree(tgt, True)
    if r.returncode != 0:
        raise ExtractError(r.stdout[-4000:])
    db = DB(facts, crates or CRATES)
    shutil.rmtree(tmp, True)
    return db


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                rest = l.split(" ", 2)[2]
                if rest.startswith("key="):
                    k, _, what = rest[4:].partition(" :: ")
                    out[k.strip()] = what.strip()
    return out


class Check:
    def __init__(self, pid, tier, level):
        self.pid, self.tier, self.level = pid, tier, level
        self.t0 = time.time()
        self.obs = []           # (rule, key, ok, where, detail)
        self.rules = {}         # rule -> text
        self.floors = {}
        self.extra = {}
        self.samples = []
        self.assume = []
        self.trusted = ["rustc's MIR construction and name/trait resolution (nightly, -Zmir-opt-level=0)",
                        "the fact extractor in /verif/driver and the interpreter in /verif/tool",
                        "the models of core/alloc library functions in /verif/tool/models.py"]

    def rule(self, name, text, floor=1):
        self.rules[name] = text
        self.floors[name] = floor

    def ob(self, rule, key, ok, where="", detail=""):
        """one obligation: `key` names the construct (never a line number)"""
        assert rule in self.rules, rule
        where = where.replace(REPO.rstrip("/") + "/", "")
        self.obs.append((rule, "%s:%s" % (rule, key), bool(ok), where, detail))
        return ok

    def missing(self, rule, what):
        self.rules.setdefault(rule, "anchor")
        self.floors.setdefault(rule, 0)
        self.obs.append((rule, "%s:anchor:%s" % (rule, what), False, "", "the code this rule is anchored in was not found: %s" % what))

    def attempt(self, rule, f, *a):
        """run one rule; a missing anchor or a construct outside the analysis fails that rule, not the others"""
        try:
            return f(*a)
        except KeyError as e:
            if "TW_DEBUG" in os.environ:
                traceback.print_exc()
            self.missing(rule, str(e)[:300])
        except Exception as e:
            if "TW_DEBUG" in os.environ:
                traceback.print_exc()
            self.missing(rule, "%s: %s" % (type(e).__name__, str(e)[:300]))

    def finish(self):
        from collections import Counter
        cnt = Counter(o[0] for o in self.obs)
        for r, n in self.floors.items():
            if cnt.get(r, 0) < n:
                self.obs.append((r, "%s:floor" % r, False, "", "only %d instances of this rule were found, expected at least %d" % (cnt.get(r, 0), n)))
        seen, bad, kf = {}, [], []
        known = known_findings(self.pid)
        for o in self.obs:
            if o[2]:
                continue
            k = o[1]
            if k in known:
                if k not in seen:
                    kf.append((k, known[k]))
            else:
                bad.append(o)
            seen[k] = 1
        cov = {"obligations": len(self.obs), "discharged": sum(1 for o in self.obs if o[2]),
               "by_rule": {r: {"instances": cnt.get(r, 0), "rule": t} for r, t in self.rules.items()},
               "known_findings": [k for k, _ in kf],
               "checker_cmd": "python3 /verif/tool/check.py %s" % self.pid,
               "trusted_base": self.trusted, "exhaustive": True,
               "explanation": " ".join(self.rules.values())[:2000],
               "samples": self.samples[:8] or [list(o[:5]) for o in self.obs[:5]]}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": self.level, "coverage": cov, "assumptions": self.assume,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(bad)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k, what in kf:
            print("KNOWN-FINDING: property=%s %s (%s)" % (self.pid, what, k))
        rp = os.path.join(VERIF, "evidence", "%s.violations.txt" % self.pid)
        if bad:
            with open(rp, "w") as f:
                for r, k, _, where, detail in bad:
                    f.write("%s\n  where: %s\n  rule:  %s\n  found: %s\n\n" % (k, where, self.rules[r], detail))
            for r, k, _, where, detail in bad[:12]:
                print("  %s  [%s]  %s" % (k, where, detail[:400]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if os.path.exists(rp):
            os.remove(rp)
        print("OK property=%s obligations=%d wall=%.1fs" % (self.pid, len(self.obs), time.time() - self.t0))
        return 0


def parmap(f, items, n=None):
    """f over items in forked processes (results must be picklable); order kept"""
    import gc, pickle
    n = min(n or int(os.environ.get("TW_PROCS", "8")), max(1, len(items)))
    if n <= 1:
        return [f(x) for x in items]
    gc.collect()
    gc.freeze()
    procs = []
    for w in range(n):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                out = []
                for i in range(w, len(items), n):
                    try:
                        out.append((i, True, f(items[i])))
                    except Exception as ex:
                        if "TW_DEBUG" in os.environ:
                            traceback.print_exc()
                        out.append((i, False, "%s: %s" % (type(ex).__name__, str(ex)[:500])))
                with os.fdopen(wr, "wb") as h:
                    pickle.dump(out, h)
            finally:
                os._exit(0)
        os.close(wr)
        procs.append((pid, r))
    res = [None] * len(items)
    done = [False] * len(items)
    bad = None
    for pid, r in procs:
        with os.fdopen(r, "rb") as h:
            data = h.read()
        os.waitpid(pid, 0)
        try:
            for i, ok, v in pickle.loads(data):
                done[i] = True
                res[i] = v
                if not ok:
                    bad = bad or v
        except Exception as ex:
            bad = bad or "a worker ended early: %s" % ex
    gc.unfreeze()
    if bad is not None:
        raise RuntimeError(bad)
    return res
