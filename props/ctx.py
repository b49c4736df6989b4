"""Bookkeeping of one check run: obligations, findings, evidence."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Broken(Exception):
    """The analysis could not find what it is supposed to analyse."""


class Ctx(object):
    def __init__(self, pid, tier, root="/repo"):
        self.pid = pid
        self.tier = tier
        self.root = root
        self.t0 = time.time()
        self.proved = []        # (rule, instance)
        self.violations = []    # dict(rule, instance, where, msg)
        self.undecided = []     # (rule, instance, why)
        self.counts = {}
        self.notes = []
        self.assumptions = []

    # results
    def ok(self, rule, instance):
        self.proved.append((rule, instance))

    def bad(self, rule, instance, where, msg):
        for v in self.violations:
            if v["rule"] == rule and v["instance"] == instance:
                return
        self.violations.append({"rule": rule, "instance": instance, "where": where, "msg": msg})

    def unknown(self, rule, instance, why):
        self.undecided.append((rule, instance, str(why)[:200]))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def note(self, s):
        self.notes.append(s)

    # epilogue
    def known(self):
        p = os.path.join(VERIF, "known_findings.json")
        if not os.path.exists(p):
            return []
        with open(p) as f:
            return [k for k in json.load(f)["findings"] if k["property"] == self.pid]

    def finish(self, level, explanation):
        known = self.known()
        new, old = [], []
        for v in self.violations:
            m = [k for k in known if k["rule"] == v["rule"] and k["instance"] == v["instance"]]
            (old if m else new).append((v, m[0] if m else None))
        wall = time.time() - self.t0
        rules = {}
        for r, i in self.proved:
            rules.setdefault(r, {"proved": 0, "violated": 0, "undecided": 0})["proved"] += 1
        for v in self.violations:
            rules.setdefault(v["rule"], {"proved": 0, "violated": 0, "undecided": 0})["violated"] += 1
        for r, i, w in self.undecided:
            rules.setdefault(r, {"proved": 0, "violated": 0, "undecided": 0})["undecided"] += 1
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": level,
            "coverage": {
                "explanation": explanation,
                "obligations": len(self.proved) + len(self.violations) + len(self.undecided),
                "proved": len(self.proved),
                "discharged": len(self.proved),
                "checker_cmd": "python3 check.py %s %s" % (self.pid, self.tier),
                "trusted_base": ["CPython ast parser", "/verif/absint abstract interpreter and domains",
                                 "models of the Python built-ins and of struct/json/csv in /verif/absint/models.py"],
                "violated": len(self.violations),
                "undecided": len(self.undecided),
                "by_rule": rules,
                "counts": self.counts,
                "undecided_list": ["%s: %s (%s)" % u for u in self.undecided][:60],
                "proved_list": ["%s: %s" % p for p in self.proved][:400],
                "known_findings": ["%s: %s" % (v["rule"], v["instance"]) for v, _ in old],
                "notes": self.notes,
            },
            "assumptions": self.assumptions,
            "violations": len(new),
            "wall_s": round(wall, 3),
        }
        evd = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(evd, exist_ok=True)
        with open(os.path.join(evd, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")
        print("%s: %d obligations: %d proved, %d violated, %d undecided (%.1fs)" % (
            self.pid, len(self.proved) + len(self.violations) + len(self.undecided), len(self.proved),
            len(self.violations), len(self.undecided), wall))
        for k in sorted(self.counts):
            print("   analysed %s: %d" % (k, self.counts[k]))
        for r, i, w in self.undecided[:20]:
            print("   undecided %s: %s (%s)" % (r, i, w))
        for v, k in old:
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, v["instance"], k.get("what", v["msg"])))
        if new:
            rp = os.path.join(evd, self.pid + ".violations.txt")
            with open(rp, "w") as f:
                for v, _ in new:
                    f.write("rule: %(rule)s\ninstance: %(instance)s\nwhere: %(where)s\n%(msg)s\n\n" % v)
            for v, _ in new[:40]:
                print("   violated [%(rule)s] %(instance)s at %(where)s: %(msg)s" % v)
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if not self.proved and not self.violations:
            print("analysis broken: nothing was decided")
            return 2
        return 0


def fork_map(ctx, jobs, width=8):
    """Run each job(ctx) in a process of its own; merge what they found."""
    import pickle
    import traceback
    pend = list(enumerate(jobs))
    live = {}
    done = {}
    while pend or live:
        while pend and len(live) < width:
            n, job = pend.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    sub = Ctx(ctx.pid, ctx.tier, ctx.root)
                    err = None
                    try:
                        job(sub)
                    except Broken as e:
                        err = ("broken", str(e))
                    except Exception:
                        err = ("crash", traceback.format_exc(limit=-6))
                    data = pickle.dumps((sub.proved, sub.violations, sub.undecided, sub.counts, sub.notes,
                                         sub.assumptions, err))
                    with os.fdopen(w, "wb") as f:
                        f.write(data)
                except BaseException:
                    code = 3
                finally:
                    os._exit(code)
            os.close(w)
            live[n] = (pid, os.fdopen(r, "rb"))
        n = min(live)
        pid, f = live.pop(n)
        data = f.read()
        f.close()
        os.waitpid(pid, 0)
        done[n] = pickle.loads(data) if data else ([], [], [], {}, [], [], ("crash", "job %d ended without a result" % n))
    for n in sorted(done):
        pr, vi, un, cn, no, asm, err = done[n]
        if err and err[0] == "broken":
            raise Broken(err[1])
        if err:
            raise RuntimeError(err[1])
        ctx.proved += pr
        for v in vi:
            ctx.bad(v["rule"], v["instance"], v["where"], v["msg"])
        ctx.undecided += un
        for k, v in cn.items():
            ctx.count(k, v)
        ctx.notes += no
        ctx.assumptions += [a for a in asm if a not in ctx.assumptions]
