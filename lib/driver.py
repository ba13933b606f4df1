"""Runs monitor jobs, aggregates what they observed, matches known findings, writes evidence and the verdict."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import subprocess
import sys
import time
import traceback

import build

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")

SAN = re.compile(r"(ERROR: AddressSanitizer[^\n]*|runtime error: [^\n]*|WARNING: ThreadSanitizer[^\n]*|"
                 r"WARNING: MemorySanitizer[^\n]*|ERROR: LeakSanitizer[^\n]*|AddressSanitizer:DEADLYSIGNAL)")
SIG = {4: "SIGILL", 6: "SIGABRT", 7: "SIGBUS", 8: "SIGFPE", 11: "SIGSEGV", 14: "SIGALRM"}


class HarnessError(Exception):
    pass


class Job:
    """One monitor process. It prints JSON lines: violation, stats, sample."""

    def __init__(self, label, cmd, env=None, timeout=240, cwd=None, crash_key="crash", crash_is_violation=True, stdin=None):
        self.label, self.cmd, self.env, self.timeout, self.cwd = label, [str(c) for c in cmd], env or {}, timeout, cwd
        self.crash_key, self.crash_is_violation = crash_key, crash_is_violation
        self.skip_if_violated = False  # a long search, pointless once something was found


class Check:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.sums, self.configs, self.samples, self.viol, self.notes = {}, {}, [], [], []
        self.rule = ""
        self.assumptions = []
        self.extra = {}
        self.found = False

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- running ------------------------------------------------------------------------------------------------
    def _env(self, job):
        env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": "/root", "LC_ALL": "C",
               "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:halt_on_error=1:detect_stack_use_after_return=1",
               "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
               "MSAN_OPTIONS": "exitcode=77:halt_on_error=1",
               "TSAN_OPTIONS": "exitcode=77:halt_on_error=0:second_deadlock_stack=1"}
        env.update(job.env)
        return env

    def _once(self, job, timeout):
        p = subprocess.Popen(job.cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             env=self._env(job), cwd=job.cwd, start_new_session=True)
        try:
            out, err = p.communicate(timeout=timeout)
            return p.returncode, out.decode("utf8", "replace"), err.decode("utf8", "replace")
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            out, err = p.communicate()
            return None, out.decode("utf8", "replace"), err.decode("utf8", "replace")

    def _job(self, job):
        if job.skip_if_violated and (self.viol or self.found):
            return job, 0, '{"ev":"stats","skipped":1}', ""
        rc, out, err = self._once(job, job.timeout)
        if rc is None and '"violation"' not in out:
            rc, out, err = self._once(job, job.timeout)
        if '"violation"' in out:
            self.found = True
        return job, rc, out, err

    def run(self, jobs, workers=None):
        """Runs the jobs; returns the list of stats dictionaries (label added)."""
        res, bad = [], None
        with cf.ThreadPoolExecutor(workers or build.JOBS) as ex:
            for job, rc, out, err in ex.map(self._job, jobs):
                try:
                    res += self._digest(job, rc, out, err)
                except HarnessError as e:
                    bad = bad or e
        if bad:
            raise bad
        return res

    def _digest(self, job, rc, out, err):
        stats, nviol, nstat = [], 0, 0
        for line in out.splitlines():
            if not line.startswith('{"ev"'):
                continue
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d["ev"] == "violation":
                nviol += 1
                self.violation(d["key"], d["detail"], job)
            elif d["ev"] == "stats":
                nstat += 1
                d.pop("ev")
                c = self.configs.setdefault(job.label, {})
                for k, v in d.items():
                    if isinstance(v, (int, float)):
                        if k.startswith("max_"):
                            c[k] = max(c.get(k, 0), v)
                            self.sums[k] = max(self.sums.get(k, 0), v)
                        else:
                            c[k] = c.get(k, 0) + v
                            self.sums[k] = self.sums.get(k, 0) + v
                    else:
                        c[k] = v
                d["label"] = job.label
                stats.append(d)
            elif d["ev"] == "sample":
                if len(self.samples) < 40:
                    self.samples.append(d["text"])
        m = SAN.findall(err)
        if m:
            frames = [x.strip() for x in re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*)", err)][:8]
            kinds = sorted(set(re.sub(r"0x[0-9a-f]+|\d+", "#", x)[:120] for x in m))
            self.violation("sanitizer", "%s: %s | frames: %s" % (job.label, "; ".join(kinds[:4]), " < ".join(frames)), job)
            nviol += 1
        if nviol:
            return stats
        if rc is None:
            # twice past a generous limit, alone the second time
            self.violation("hang", "%s did not finish within %d s in two runs" % (job.label, job.timeout), job)
        elif rc != 0:
            name = SIG.get(-rc, str(rc)) if rc < 0 else "exit code %d" % rc
            if rc < 0 and job.crash_is_violation:
                self.violation(job.crash_key, "%s: the process died with %s while running the code under test; last output: %s"
                               % (job.label, name, (out.splitlines() or [""])[-1][:200]), job)
            else:
                raise HarnessError("%s: %s\n%s\n%s" % (job.label, name, out[-1000:], err[-3000:]))
        elif not nstat:
            raise HarnessError("%s: no statistics reported\n%s\n%s" % (job.label, out[-500:], err[-2000:]))
        return stats

    def violation(self, key, detail, job=None):
        self.viol.append({"key": key, "detail": detail, "job": job.label if job else "", "cmd": job.cmd if job else [],
                          "env": job.env if job else {}})

    def note(self, text):
        if text not in self.notes:
            self.notes.append(text)

    # ---- verdict ------------------------------------------------------------------------------------------------
    def finish(self):
        known = load_known(self.prop)
        fresh, seen = [], []
        for v in self.viol:
            hit = [k for k in known if k[0] == v["key"] and k[1] in v["detail"]]
            if hit:
                if hit[0] not in seen:
                    seen.append(hit[0])
            else:
                fresh.append(v)
        if not fresh and not self.sums.get("evaluations"):
            raise HarnessError("nothing was observed")
        self.evidence(len(fresh))
        for k in seen:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k[2]))
        if not fresh:
            print("OK property=%s evaluations=%s distinct=%s wall=%.0fs" % (
                self.prop, self.sums.get("evaluations"), self.sums.get("distinct"), time.time() - self.t0))
            return 0
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for v in fresh[:6]:
            print("  %s: %s" % (v["key"], v["detail"][:600]))
        h = hashlib.sha256(json.dumps(fresh[0], sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (self.prop, h))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier, "violations": fresh[:50],
                       "how": "re-run the command of a violation (binaries are in /verif/.cache; rebuild them by re-running the check), "
                              "or: VERIF_SEED=%d VERIF_TIER=%s python3 bin/check.py %s" % (self.seed, self.tier, self.prop)}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1

    def evidence(self, nviol):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"evaluations": int(self.sums.get("evaluations", 0)), "distinct_nontrivial": int(self.sums.get("distinct", 0)),
               "rule": self.rule, "samples": self.samples[:12],
               "observed": {k: v for k, v in sorted(self.sums.items()) if k not in ("evaluations", "distinct")},
               "configurations": len(self.configs), "per_configuration": self.configs, "notes": self.notes}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": nviol}
        tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % self.prop)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", "%s.json" % self.prop))


def load_known(prop):
    """known: property=ID key=KEY match=<text of the detail, between | |> what"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) match=\|(.*?)\| (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4).strip()))
    return out


def main(table):
    if len(sys.argv) < 2 or sys.argv[1] not in table:
        print("usage: check.py ID   (IDs: %s)" % " ".join(sorted(table)))
        return 2
    level, fn = table[sys.argv[1]]
    c = Check(sys.argv[1], level)
    try:
        fn(c)
        rc = c.finish()
    except build.BuildError as e:
        print("ERROR build: %s" % e)
        rc = 2
    except HarnessError as e:
        print("ERROR harness: %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    # a violation found before an error of some other job still counts
    if rc == 2 and c.viol and not [v for v in c.viol if any(k[0] == v["key"] and k[1] in v["detail"] for k in load_known(c.prop))]:
        try:
            rc = c.finish()
        except Exception:
            traceback.print_exc()
    build.prune()
    return rc
