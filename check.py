#!/usr/bin/env python3
"""Decide one property of /repo with Kani (CBMC): check.py PROPERTY

Regenerates the encoding from /repo's working tree, asks the solver about every
harness of the property, replays any counterexample natively, writes
evidence/PROPERTY.json. Exit 0: holds. Exit 1: violated, confirmed by a native
replay. Exit 2: no verdict.
"""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
CRATE = os.path.join(HERE, "harness")
KANI_LIB = "/root/.kani"

W = ["w%02d" % i for i in range(37)]
C = ["c%02d" % i for i in range(12)]


def batch(kind, names):
    return ["%s::%s" % (kind, n) for n in names]


# property: (harnesses, loop bound)
PROPS = {
    "C01": (["total32", "total16"], 40),
    "C02": (["rec_i"], 40),
    "C03": (["rec_m", "rec_a"], 40),
    "C04": (["rec_csr"], 40),
    "C05": (["rec_fence", "rec_priv"], 40),
    "C06": (["rec_ss32", "rec_ss16"], 40),
    "C07": (["rec_c"], 40),
    "C08": (["regs32"], 40),
    "C09": (["imm32"], 40),
    "C10": (["regs16"], 40),
    "C11": (["imm16"], 40),
    "C12": (["reject32", "reject16"], 40),
    "C13": (["xlen32", "xlen16"], 40),
    "C14": (["err_only64_32", "err_only64_16", "err_cause32", "err_cause16"], 40),
    "C15": (["record32", "record16", "formats"], 40),
    "C16": (["length32", "length16"], 40),
    "C17": (["from_usize"], 40),
    "C18": (["display_link32", "display_link16"] + batch("shown", W + C), 40),
    "C19": (["display_link32"] + batch("text", W), 40),
    "C20": (["display_link16"] + batch("text", C), 40),
    "C21": (batch("names", W + C), 40),
    "C22": (["lossless32", "lossless16"], 40),
    "C23": (["expansion"], 40),
    "C24": (["equality"], 40),
    "C25": (["display_link32", "display_link16"] + batch("fails", W + C), 40),
    "C26": (["range32", "range16", "range_parsers"], 40),
    "C27": (["distinct32", "distinct16"], 40),
    "C28": (["one_length"], 40),
    "C29": (["repeat32", "repeat16"], 40),
}

ASSUMPTIONS = [
    "Kani's translation of Rust MIR to CBMC's goto language, CBMC's symbolic execution and the SAT solver are correct",
    "usize is 64 bits wide and overflow checks are on (dev profile); panics abort",
    "the encoding tables of harness/src/spec.rs say what the ISA manual says",
]
EXACT_ASSUMPTIONS = [
    "for opcodes whose decoded operands are not those the layout calls for, the display harnesses were run "
    "on the operands of decoded symbolic words instead",
]
DISPLAY_ASSUMPTIONS = [
    "display harnesses fix the opcode and take every operand value that decoding can produce for it; "
    "that decoding produces no others is itself checked for every word by the display_link harnesses",
]


class NoVerdict(Exception):
    pass


def known_findings(pid):
    """Lines 'known: property=ID[,ID] id=Kn ...' of known-findings.txt."""
    ids, mine = set(), []
    with open(os.path.join(HERE, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"known:\s+property=(\S+)\s+id=(K\d)\s+(.*)", line)
            if m:
                ids.add(m.group(2))
                if pid in m.group(1).split(","):
                    mine.append((m.group(2), m.group(3).strip()))
    return ",".join(sorted(ids)), mine


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.harnesses, self.unwind = PROPS[pid]
        self.t0 = time.time()
        self.deadline = self.t0 + (840 if tier == "quick" else 3600)
        self.work = os.path.join(HERE, "work", pid)
        self.kani_dir = os.path.join(self.work, "kani")
        self.native_dir = os.path.join(self.work, "native")
        self.results = {}
        self.cmds = []
        self.violations, self.undecided = [], []
        self.exact, self.suggested = set(), set()
        known, self.mine = known_findings(pid)
        env = dict(os.environ)
        env.update(
            HOME=env.get("HOME", "/root"),
            PATH=env.get("PATH", "") + ":/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin",
            CARGO_NET_OFFLINE="true",
            CARGO_TERM_COLOR="never",
            CARGO_INCREMENTAL="0",
            RAKI_KNOWN=known,
        )
        for v in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR"):
            env.pop(v, None)
        self.env = env

    # -- processes

    def run(self, cmd, env=None, reserve=0):
        """(exit code, output); exit code None and partial output if cut off."""
        left = self.deadline - reserve - time.time()
        if left < 5:
            raise NoVerdict("out of time")
        p = subprocess.Popen(
            cmd, cwd=CRATE, env=env or self.env, text=True, errors="replace",
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True,
        )
        try:
            out, _ = p.communicate(timeout=left)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            return None, p.communicate()[0]
        return p.returncode, out

    # -- solver runs

    def kani(self, harnesses, unwind, solver, extra=(), parallel=True):
        cmd = ["cargo", "kani", "--lib", "--target-dir", self.kani_dir,
               "--default-unwind", str(unwind), "--solver", solver,
               "-Z", "unstable-options", "--no-assertion-reach-checks"]
        if parallel:
            cmd += ["-j", str(min(8, os.cpu_count() or 4)), "--output-format", "terse"]
        cmd += list(extra)
        for h in harnesses:
            cmd += ["--harness", "proofs::" + h]
        cmd += ["--exact"]
        self.cmds.append(" ".join(cmd))
        # Leave time to extract and replay a counterexample.
        return self.run(cmd, reserve=200 if parallel else 20)

    def prove(self, harnesses, unwind, solver):
        """{harness: result} for one parallel Kani run."""
        rc, out = self.kani(harnesses, unwind, solver)
        self.log(out)
        res = {}
        running = {}
        cur = None
        for line in out.splitlines():
            m = re.match(r"(?:Thread (\d+): )?Checking harness proofs::(\S+?)\.\.\.", line)
            if m:
                running[m.group(1)] = m.group(2)
                continue
            m = re.match(r"Thread (\d+):\s*$", line)
            if m:
                h = running.get(m.group(1))
                cur = res.setdefault(h, {"checks": 0, "failed": 0, "failures": [], "cover": None,
                                         "verdict": None, "time": 0.0, "solver": solver, "unwind": unwind})
                continue
            if cur is None:
                continue
            m = re.match(r"\s*\*\* (\d+) of (\d+) failed", line)
            if m:
                cur["failed"], cur["checks"] = int(m.group(1)), int(m.group(2))
            m = re.match(r"\s*\*\* (\d+) of (\d+) cover properties satisfied", line)
            if m:
                cur["cover"] = (int(m.group(1)), int(m.group(2)))
            m = re.match(r"Failed Checks: (.*)", line)
            if m:
                cur["failures"].append(m.group(1).strip().strip('"'))
            m = re.match(r"VERIFICATION:- (\w+)", line)
            if m:
                cur["verdict"] = m.group(1)
            m = re.match(r"Verification Time: ([\d.]+)s", line)
            if m:
                cur["time"] = float(m.group(1))
        missing = [h for h in harnesses if h not in res or res[h]["verdict"] is None]
        if missing and rc is None:
            self.undecided.append("out of time for " + ", ".join(missing))
            res = {h: r for h, r in res.items() if h not in missing}
        elif missing:
            errs = [l for l in out.splitlines() if l.startswith("error")][:5]
            raise NoVerdict("no result for %s: %s" % (", ".join(missing), "; ".join(errs)))
        return res

    def log(self, out):
        with open(os.path.join(self.work, "log.txt"), "a") as f:
            f.write(out)

    # -- counterexamples

    def counterexamples(self, h, unwind, solver):
        """Value lists of the solver's counterexamples to one harness."""
        rc, out = self.kani([h], unwind, solver, parallel=False,
                            extra=["-Z", "concrete-playback", "--concrete-playback=print"])
        self.log(out)
        ces = []
        for blk in re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S):
            vals = [[int(x) for x in v.split(",") if x.strip()]
                    for v in re.findall(r"vec!\[([\d,\s]*)\]", blk)]
            if vals not in ces:
                ces.append(vals)
        return ces

    def build_native(self):
        env = dict(self.env, RUSTUP_TOOLCHAIN="stable")
        for prof in ([], ["--release"]):
            rc, out = self.run(["cargo", "build", "--offline", "--bin", "replay",
                                "--target-dir", self.native_dir] + prof, env)
            if rc != 0:
                self.log(out)
                raise NoVerdict("the replay binary does not build")

    def native(self, args):
        r = []
        for prof in ("debug", "release"):
            rc, out = self.run([os.path.join(self.native_dir, prof, "replay")] + args)
            r.append((prof, rc, out.strip()))
        return r

    def replay(self, h, ces, failures):
        """Path of a replay file that breaks the property natively, or None."""
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.txt" % (self.pid, h.replace("::", "-")))
        for vals in ces:
            with open(path, "w") as f:
                f.write("# %s: run harness/ binary `replay`%s on this file\n"
                        % (self.pid, " (built with RAKI_EXACT=%s)" % self.env["RAKI_EXACT"] if self.exact else ""))
                for m in failures:
                    f.write("# solver: %s\n" % m)
                f.write(h + "\n")
                for v in vals:
                    f.write(" ".join("%02x" % b for b in v) + "\n")
            seen = self.native([path])
            if any(rc == 1 for _, rc, _ in seen):
                with open(path, "a") as f:
                    for prof, rc, out in seen:
                        f.write("# native %s: %s\n" % (prof, out.replace("\n", " | ")))
                for prof, rc, out in seen:
                    print("  %s: %s" % (prof, out.splitlines()[-2:] if rc else "holds"))
                return path
            for _, _, out in seen:
                for m in re.findall(r"^EXACT (.*)$", out, re.M):
                    self.suggested.update(m.split())
        if os.path.exists(path):
            os.remove(path)
        return None

    # -- everything

    def functions(self):
        """Functions of raki with a body in the generated encoding."""
        tool = None
        for root, _, files in os.walk(KANI_LIB):
            if "goto-instrument" in files:
                tool = os.path.join(root, "goto-instrument")
                break
        names = set()
        if tool:
            for root, _, files in os.walk(self.kani_dir):
                for f in files:
                    if f.endswith(".out") and not f.endswith(".symtab.out"):
                        p = subprocess.run([tool, "--list-goto-functions", os.path.join(root, f)],
                                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
                        for l in p.stdout.splitlines():
                            m = re.match(r"(<?raki::.*|<.* as raki::.*) /\* \S+ \*/", l)
                            if m:
                                names.add(m.group(1))
        return sorted(names)

    def decide(self, harnesses, solver):
        """Prove the harnesses; confirm failures natively. False: a failure was not confirmed."""
        todo, unwind, confirmed = list(harnesses), self.unwind, True
        while todo:
            res = self.prove(todo, unwind, solver)
            again = []
            for h, r in res.items():
                self.results[(h + ("/exact" if self.exact else ""), solver)] = r
                if r["verdict"] == "SUCCESSFUL":
                    if r["cover"] and r["cover"][0] != r["cover"][1]:
                        self.undecided.append("%s: vacuous, only %d of %d witnesses reachable" % ((h,) + r["cover"]))
                    continue
                real = [m for m in r["failures"] if "unwinding assertion" not in m]
                if not real:
                    again.append(h)
                    continue
                if len(self.violations) >= 3 or (self.violations and time.time() - self.t0 > 240):
                    print("%s: also fails, not replayed: %s" % (h, "; ".join(real)))
                    continue
                if not os.path.isdir(self.native_dir):
                    self.build_native()
                path = self.replay(h, self.counterexamples(h, unwind, solver), real)
                if path:
                    self.violations.append((h, path, real))
                else:
                    confirmed = False
                    self.undecided.append("%s: not reproduced natively: %s" % (h, "; ".join(real)))
            unwind *= 4
            if again and unwind > 700:
                self.undecided.append("loop bound too small for " + ", ".join(again))
                break
            todo = again
        return confirmed

    def go_exact(self, ops):
        """From here on, records of these opcodes come from decoding a symbolic word."""
        self.exact |= ops
        self.env["RAKI_EXACT"] = "all" if "all" in self.exact else ",".join(sorted(self.exact))
        shutil.rmtree(self.kani_dir, ignore_errors=True)
        shutil.rmtree(self.native_dir, ignore_errors=True)

    def link(self, links, solver):
        """Establish what the display harnesses assume of decoded records."""
        while not self.decide(links, solver) and not self.violations:
            if "all" in self.exact or self.suggested <= self.exact:
                return
            print("decoding produces operands the layout does not call for; going through decoding")
            self.undecided = []
            late = time.time() - self.t0 > 300
            self.go_exact({"all"} if late else self.suggested)

    def main(self):
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        links = [h for h in self.harnesses if h.startswith("display_link")]
        rest = [h for h in self.harnesses if h not in links]
        try:
            for solver in ["cadical"] if self.tier == "quick" else ["cadical", "kissat"]:
                self.link(links, solver)
                if not self.violations or time.time() - self.t0 < 300:
                    self.decide(rest, solver)
                if self.violations:
                    break
            if self.tier != "quick" and links and not self.violations:
                self.go_exact({"all"})
                self.decide(self.harnesses, "cadical")
            if self.mine:
                if not os.path.isdir(self.native_dir):
                    self.build_native()
                for k, what in self.mine:
                    if any(rc == 1 for _, rc, _ in self.native(["--known", k])):
                        print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        except NoVerdict as e:
            self.undecided.append(str(e))
        self.evidence(self.violations)
        for h, path, why in self.violations:
            print("%s: %s" % (h, "; ".join(why)))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        for u in self.undecided:
            print("NO VERDICT: " + u)
        # Keep the log, drop the build output.
        shutil.rmtree(self.kani_dir, ignore_errors=True)
        shutil.rmtree(self.native_dir, ignore_errors=True)
        if self.violations:
            return 1
        return 2 if self.undecided else 0

    def evidence(self, violations):
        rs = self.results
        fns = self.functions()
        ob = sum(r["checks"] for r in rs.values())
        bad = sum(r["failed"] for r in rs.values())
        text = any("::" in h or "display" in h for h in self.harnesses)
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
            "level": "proof",
            "coverage": {
                "obligations": ob,
                "discharged": ob - bad,
                "checker_cmd": self.cmds[0] if self.cmds else "",
                "trusted_base": ["Kani 0.68.0", "CBMC 6.11.0", "SAT solver (CaDiCaL; also Kissat in the thorough tier)",
                                 "rustc MIR", "harness/src/spec.rs and harness/src/text.rs as the reading of the ISA"],
                "harnesses": {
                    "%s/%s" % (h, s): {
                        "verdict": r["verdict"], "checks": r["checks"], "failed": r["failed"],
                        "witnesses": list(r["cover"] or ()), "loop_bound": r["unwind"], "solver_s": r["time"],
                    } for (h, s), r in sorted(rs.items())
                },
                "solver_s": round(sum(r["time"] for r in rs.values()), 2),
                "functions_encoded": len(fns),
                "functions": fns,
            },
            "assumptions": ASSUMPTIONS + (DISPLAY_ASSUMPTIONS if text else []) + (EXACT_ASSUMPTIONS if self.exact else []),
            "wall_s": round(time.time() - self.t0, 1),
            "violations": len(violations),
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        print("%s: %d harness runs, %d obligations, %d discharged, %d raki functions encoded, %.0f s solver, %.0f s wall"
              % (self.pid, len(rs), ob, ob - bad, len(fns), ev["coverage"]["solver_s"], ev["wall_s"]))


if __name__ == "__main__":
    if len(sys.argv) != 2 or sys.argv[1] not in PROPS:
        print("usage: check.py PROPERTY", file=sys.stderr)
        sys.exit(2)
    try:
        sys.exit(Check(sys.argv[1], os.environ.get("VERIF_TIER", "quick")).main())
    except Exception:
        # Exit 1 is reserved for a confirmed violation.
        traceback.print_exc()
        sys.exit(2)
