#!/usr/bin/env python3
"""Driver of every check: compiles a harness against /repo's working tree,
explores its case spaces in parallel shards, confirms what fails by replaying
it, and writes the evidence.

    run.py --property U01 --tier quick
    run.py --replay replays/U01-....json
"""
import argparse
import json
import os
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from registry import PROPERTIES, REPO, BASE_FLAGS, ASSUMPTIONS  # noqa: E402

SHARDS = 8
STALL_S = 90
CRUMB_SIZE = 8 + 8 + 64 + 512


def build(spec, workdir):
    """Compiles the binaries a property needs, in parallel; name -> path."""
    procs = []
    for b in spec["binaries"]:
        out = os.path.join(workdir, b["name"])
        steps = []
        objs = []
        for i, src in enumerate(b["sources"]):
            obj = out + ".%d.o" % i
            objs.append(obj)
            steps.append(([b.get("compiler", "g++")] + BASE_FLAGS + b.get("flags", []) + b.get("compile", [])
                          + ["-c", src.replace("@", HERE + "/harness/"), "-o", obj]))
        link = [b.get("compiler", "g++")] + BASE_FLAGS + objs + ["-o", out] + b.get("link", [])
        procs.append((b, out, steps, link))
    running = []
    for b, out, steps, link in procs:
        for cmd in steps:
            running.append((b["name"], cmd, subprocess.Popen(
                cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    ok = True
    for name, cmd, p in running:
        text = p.communicate()[0].decode(errors="replace")
        if p.returncode:
            ok = False
            sys.stderr.write("cannot compile %s\n%s\n%s\n"
                             % (name, " ".join(cmd), text[:6000]))
    if not ok:
        return None
    result = {}
    for b, out, steps, link in procs:
        r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            sys.stderr.write("cannot link %s\n%s\n"
                             % (b["name"], r.stdout.decode(errors="replace")[:6000]))
            if "link_violation" in b:
                result[b["name"]] = None
                continue
            return None
        result[b["name"]] = out
    return result


def environment():
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=77:"
                           "detect_stack_use_after_return=0:allocator_may_return_null=1:"
                           "max_allocation_size_mb=2048")
    env["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1:exitcode=77"
    env["LC_ALL"] = "C.UTF-8"
    return env


SCRATCHES = []


def scratch_root(workdir):
    """Where the files of a check lie: in memory where there is room, which only saves time."""
    memory = "/dev/shm"
    try:
        v = os.statvfs(memory)
        if os.access(memory, os.W_OK | os.X_OK) and v.f_bavail * v.f_frsize > 1 << 30:
            return memory
    except OSError:
        pass
    return workdir


def clean(workdir):
    for d in SCRATCHES + [workdir]:
        shutil.rmtree(d, ignore_errors=True)


class Shard:
    def __init__(self, binary, prop, tier, workdir, shard, shards, space=None, index=None):
        self.tag = "%s.%d.%s" % (os.path.basename(binary), shard, time.monotonic_ns())
        self.binary = binary
        self.shard, self.shards = shard, shards
        self.out = os.path.join(workdir, self.tag + ".json")
        self.crumb_path = os.path.join(workdir, self.tag + ".crumb")
        self.log = os.path.join(workdir, self.tag + ".log")
        self.scratch = tempfile.mkdtemp(prefix="vp-", dir=scratch_root(workdir))
        SCRATCHES.append(self.scratch)
        with open(self.crumb_path, "wb") as f:
            f.write(b"\0" * CRUMB_SIZE)
        cmd = [binary, "--property", prop, "--tier", tier, "--out", self.out,
               "--crumb", self.crumb_path, "--shard", str(shard), "--shards", str(shards)]
        if space is not None:
            cmd += ["--space", space]
        if index is not None:
            cmd += ["--index", str(index)]
        self.cmd = cmd
        self.logf = open(self.log, "wb")
        self.p = subprocess.Popen(cmd, cwd=self.scratch, stdin=subprocess.DEVNULL,
                                  stdout=self.logf, stderr=self.logf,
                                  env=environment(), start_new_session=True)
        self.last = (None, time.monotonic())
        self.stalled = False

    def crumb(self):
        with open(self.crumb_path, "rb") as f:
            data = f.read(CRUMB_SIZE).ljust(CRUMB_SIZE, b"\0")
        counter, index = struct.unpack_from("QQ", data)
        text = lambda b: b.split(b"\0")[0].decode(errors="replace")
        return counter, index, text(data[16:80]), text(data[80:592])

    def poll(self):
        if self.p.poll() is not None:
            return True
        c = self.crumb()[0]
        if c != self.last[0]:
            self.last = (c, time.monotonic())
        elif time.monotonic() - self.last[1] > STALL_S:
            self.stalled = True
            self.kill()
            return True
        return False

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def result(self):
        """(report or None, failures)."""
        self.logf.close()
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        rc = self.p.returncode
        report = None
        if os.path.exists(self.out):
            try:
                report = json.load(open(self.out))
            except ValueError:
                report = None
        shutil.rmtree(self.scratch, ignore_errors=True)
        if report is not None and report.get("complete") and rc in (0, 1) and not self.stalled:
            return report, report["failures"]
        counter, index, space, note = self.crumb()
        log = open(self.log, "rb").read(20000).decode(errors="replace")
        lines = [l for l in log.splitlines()
                 if "ERROR:" in l or "runtime error" in l or "SUMMARY" in l or "terminate" in l]
        what = ("no progress for %d s" % STALL_S if self.stalled
                else "process ended with status %d" % rc)
        if lines:
            what += ": " + " | ".join(lines[:3])[:600]
        return None, [{"space": space, "index": index, "what": what, "desc": note,
                       "crash": True, "counter": counter}]


def run_group(shards, deadline):
    pending = list(shards)
    timed_out = False
    while pending:
        pending = [s for s in pending if not s.poll()]
        if pending and time.monotonic() > deadline:
            timed_out = True
            for s in pending:
                s.kill()
            break
        if pending:
            time.sleep(0.02)
    return timed_out


def confirm(binary, prop, tier, workdir, failure, shard, shards):
    """Runs the failing case on its own, up to three times; failing that,
    its whole shard once more. Returns how it was reproduced, or None."""
    for _ in range(3):
        s = Shard(binary, prop, tier, workdir, 0, 1, failure["space"], failure["index"])
        run_group([s], time.monotonic() + 300)
        _, fs = s.result()
        if fs:
            return "case", fs[0]
    s = Shard(binary, prop, tier, workdir, shard, shards)
    run_group([s], time.monotonic() + 600)
    _, fs = s.result()
    if fs:
        return "shard", fs[0]
    return None, None


def write_replay(prop, tier, bname, failure, how, shard, shards):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s-%s.json" % (
        prop, bname, failure["space"].replace("/", "_").replace(" ", "_") or "start", failure["index"]))
    json.dump({"property": prop, "tier": tier, "binary": bname, "how": how,
               "space": failure["space"], "index": failure["index"],
               "shard": shard, "shards": shards,
               "what": failure["what"], "case": failure["desc"],
               "replay_cmd": "python3 /verif/run.py --replay " + path}, open(path, "w"), indent=1)
    return path


def known_findings():
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [f for f in json.load(open(path)) if f.get("status") == "known"]


def check(prop, tier):
    spec = PROPERTIES[prop]
    start = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    workdir = tempfile.mkdtemp(prefix="vp-%s-" % prop)
    try:
        binaries = build(spec, workdir)
        if binaries is None:
            print("NO-ANSWER property=%s: the harness does not compile against this tree" % prop)
            return 2
        for b in spec["binaries"]:
            if binaries[b["name"]] is None:
                # Linking is part of the property, and every object compiled.
                path = write_replay(prop, tier, b["name"], {
                    "space": "", "index": 0, "what": b["link_violation"], "desc": b["name"]}, "link", 0, 1)
                print("VIOLATION property=%s replay=%s" % (prop, path))
                print("  what: %s" % b["link_violation"])
                return 1
        built = time.monotonic()
        limit = start + (840 if tier == "quick" else 6 * 3600)
        shards = []
        for b in spec["binaries"]:
            n = b.get("shards", SHARDS)
            for i in range(n):
                shards.append((b, Shard(binaries[b["name"]], prop, tier, workdir, i, n)))
        # The machine has as many cores as there are shards of one binary.
        timed_out = run_group([s for _, s in shards], limit)
        total = {"cases": 0, "transitions": 0, "states": 0, "outcomes": {}, "spaces": {},
                 "samples": [], "capped": False}
        violations, unconfirmed, digests = [], [], {}
        listed = [k for k in known_findings() if k["property"] == prop]
        seen_known = []

        def is_listed(f):
            match = [k for k in listed if k.get("space") == f["space"] and k.get("case") == f["desc"]]
            seen_known.extend(k for k in match if k not in seen_known)
            return bool(match)
        for b, s in shards:
            report, failures = s.result()
            if timed_out and report is None:
                continue
            for f in [f for f in failures if not is_listed(f)][:2]:
                if len(violations) >= 3:
                    break
                how, again = confirm(binaries[b["name"]], prop, tier, workdir, f, s.shard, s.shards)
                if how:
                    f = dict(f)
                    f["what"] = again["what"] if again["what"] else f["what"]
                    f["desc"] = again["desc"] or f["desc"]
                    f["space"], f["index"] = (again["space"] or f["space"]), again["index"]
                    violations.append((b, s, f, how))
                else:
                    unconfirmed.append((b["name"], f))
            if report is None:
                continue
            for k in ("cases", "transitions", "states"):
                total[k] += report[k]
            total["capped"] |= report["capped"]
            for k, v in report["outcomes"].items():
                if k.startswith("digest:"):
                    digests.setdefault(k, {}).setdefault(s.shard, {})[b["name"]] = v
                    continue
                total["outcomes"][k] = total["outcomes"].get(k, 0) + v
            for k, v in report["spaces"].items():
                key = k if len(spec["binaries"]) == 1 else b["name"] + "/" + k
                e = total["spaces"].setdefault(key, {"bound": v["bound"], "size": v["size"], "run": 0})
                e["run"] += v["run"]
            total["samples"] += report["samples"]
        if timed_out:
            print("NO-ANSWER property=%s: out of time" % prop)
            return 2
        # Builds of the same sources have to give the same answers.
        digest_pairs = 0
        for k, per_shard in digests.items():
            for shard, per_bin in per_shard.items():
                if len(per_bin) > 1:
                    digest_pairs += 1
                    if len(set(per_bin.values())) > 1:
                        name = k[len("digest:"):]
                        violations.append((spec["binaries"][0], None, {
                            "space": name, "index": shard,
                            "what": "builds disagree: %s" % per_bin, "desc": "space %s, shard %d" % (name, shard)}, "digest"))
        rc = 0
        shown = 0
        for k in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        for b, s, f, how in violations:
            if is_listed(f):
                continue
            rc = 1
            path = write_replay(prop, tier, b["name"], f, how, s.shard if s else f["index"],
                                s.shards if s else SHARDS)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  case: %s" % f["desc"])
            print("  what: %s" % f["what"])
            shown += 1
        for name, f in unconfirmed:
            print("NOT-REPRODUCED property=%s %s %s" % (prop, name, f))
        exhaustive = all(e["run"] == e["size"] for e in total["spaces"].values())
        if rc == 0 and not exhaustive and not unconfirmed:
            print("NO-ANSWER property=%s: exploration incomplete" % prop)
            return 2
        wall = time.monotonic() - start
        samples = total["samples"][:12] or ["(no sample)"]
        evidence = {
            "property": prop, "tier": tier, "seed": seed, "level": spec["level"],
            "coverage": {
                "states": total["states"],
                "transitions": total["transitions"],
                "traces_validated_against_impl": total["cases"],
                "samples": samples,
                "exhaustive": exhaustive,
                "spaces": total["spaces"],
                "outcomes": total["outcomes"],
                "distinct_outcomes": len(total["outcomes"]),
                "state_counter_capped": total["capped"],
                "builds_compared": digest_pairs,
                "compile_s": round(built - start, 1),
            },
            "assumptions": spec.get("assumptions", []) + ASSUMPTIONS,
            "wall_s": round(wall, 1),
            "violations": shown,
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(evidence, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
        print("%s %s: %d cases, %d transitions, %d states, %d outcomes, %.1f s (compile %.1f s)%s" % (
            prop, tier, total["cases"], total["transitions"], total["states"],
            len(total["outcomes"]), wall, built - start, "" if rc == 0 else ", VIOLATED"))
        if os.environ.get("VP_SHOW"):
            print(json.dumps(evidence["coverage"], indent=1))
        return rc
    finally:
        clean(workdir)


def replay(path):
    r = json.load(open(path))
    spec = PROPERTIES[r["property"]]
    workdir = tempfile.mkdtemp(prefix="vp-replay-")
    try:
        binaries = build(spec, workdir)
        if binaries is None:
            return 2
        if binaries[r["binary"]] is None:
            print("VIOLATION property=%s replay=%s" % (r["property"], path))
            return 1
        if r["how"] == "case":
            s = Shard(binaries[r["binary"]], r["property"], r["tier"], workdir, 0, 1, r["space"], r["index"])
        elif r["how"] == "shard":
            s = Shard(binaries[r["binary"]], r["property"], r["tier"], workdir, r["shard"], r["shards"])
        else:
            print("compare the builds again with: run.py --property", r["property"])
            return 2
        run_group([s], time.monotonic() + 900)
        log = open(s.log, "rb").read(100000).decode(errors="replace")
        _, failures = s.result()
        sys.stdout.write(log)
        for f in failures:
            print("VIOLATION property=%s replay=%s" % (r["property"], path))
            print("  case: %s\n  what: %s" % (f["desc"], f["what"]))
        return 1 if failures else 0
    finally:
        clean(workdir)


def main():
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(143)) # and leave no files
    a = argparse.ArgumentParser()
    a.add_argument("--property")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a.add_argument("--replay")
    o = a.parse_args()
    if o.replay:
        return replay(o.replay)
    return check(o.property, o.tier)


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
