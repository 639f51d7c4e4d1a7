#!/usr/bin/env python3
"""check.py PROP quick|thorough [--case N] [--cases N] [--jobs N]

Builds the property's monitor from /repo's current tree under sanitizers, runs its numbered cases in parallel
shards, and turns what the monitors and sanitizers reported into a verdict and an evidence file.
exit 0: held on everything explored; 1: VIOLATION line(s); 3: the check itself failed (no verdict)."""
import fcntl, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from config import PROPS  # noqa: E402

REPO = os.environ.get("VH_REPO", "/repo")  # (another tree only while developing)
BUILD = os.path.join(HERE, "build" if REPO == "/repo" else "build/dev-" + os.path.basename(REPO))
MAX_RESTARTS = 40  # crashed or hung processes per shard before the shard gives up (each is reported)


def die(msg):
    print("CHECK-ERROR: " + msg)
    sys.exit(3)


def build(prop, flavour, quiet=True):
    os.makedirs(BUILD, exist_ok=True)
    bdir = os.path.join(BUILD, flavour)
    env = dict(os.environ, CCACHE_DIR=os.path.join(HERE, ".cache"), CCACHE_MAXSIZE="3G", CCACHE_NOHASHDIR="1",
               CCACHE_SLOPPINESS="include_file_mtime,include_file_ctime,time_macros")
    with open(os.path.join(BUILD, "lock-" + flavour), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(bdir, "build.ninja")):
            shutil.rmtree(bdir, ignore_errors=True)
            cmd = ["cmake", "-S", os.path.join(HERE, "harness"), "-B", bdir, "-G", "Ninja", "-DREPO=" + REPO,
                   "-DFLAVOUR=" + flavour, "-DCMAKE_CXX_COMPILER=/usr/bin/clang++", "-DCMAKE_BUILD_TYPE=None"]
            if shutil.which("ccache"):
                cmd.append("-DCMAKE_CXX_COMPILER_LAUNCHER=ccache")
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                shutil.rmtree(bdir, ignore_errors=True)
                die("cmake failed:\n" + r.stdout[-3000:])
        tgt = "all_vh" if prop == "ALL" else "vh_" + prop
        r = subprocess.run(["ninja", "-C", bdir, "-j8", tgt], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True)
        if r.returncode:
            out = "\n".join(l for l in r.stdout.split("\n") if not re.match(r"\[\d+/\d+\] (Building|Linking)", l))
            die("build failed:\n" + out[-6000:])
    return os.path.join(bdir, tgt)


def san_env(flavour):
    e = dict(os.environ)
    e.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", LC_ALL="C", TZ="UTC", OPENCV_LOG_LEVEL="SILENT")
    e["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=77:handle_abort=1:handle_segv=1:handle_sigfpe=1:"
                         "detect_stack_use_after_return=0:max_malloc_fill_size=268435456:malloc_fill_byte=190:"
                         "allocator_may_return_null=0:max_allocation_size_mb=6000:quarantine_size_mb=64:"
                         "strict_string_checks=1:check_initialization_order=0")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77"
    e["TSAN_OPTIONS"] = ("halt_on_error=0:exitcode=66:second_deadlock_stack=1:ignore_noninstrumented_modules=1:"
                         "history_size=4:report_signal_unsafe=0")
    if flavour == "tsan":  # (its runtime reads the common part of these as well)
        del e["UBSAN_OPTIONS"], e["ASAN_OPTIONS"]
    if os.path.exists("/usr/bin/llvm-symbolizer"):
        for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "TSAN_OPTIONS"):
            if k not in e:
                continue
            e[k] += ":external_symbolizer_path=/usr/bin/llvm-symbolizer"
    return e


FRAME = re.compile(r"^\s*#\d+ (?:0x[0-9a-f]+ in )?(.*?) (/[^\s:]+|\([^)]*\))(?::(\d+))?", re.M)


def short(fn):
    fn = re.sub(r"\(anonymous namespace\)::", "", fn)
    fn = re.sub(r"<.*", "", fn)
    fn = re.sub(r"\(.*", "", fn)
    return fn.strip().split(" ")[-1][:80]


def crash_key(rc, err):
    kind = None
    m = re.search(r"ERROR: AddressSanitizer:? ([\w-]+)", err)
    if m:
        kind = "asan-" + m.group(1)
        if "ABRT" in err[m.start():m.start() + 200]:
            kind = "abort"
            if re.search(r"\bF\d{4,8} \d\d:\d\d", err):
                kind = "fatal-log"
    u = re.search(r"runtime error: (.*)", err)
    if u and not kind:
        kind = "ubsan"
    if not kind:
        m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", err)
        if m:
            kind = "tsan-" + m.group(1).strip().split(" (")[0].replace(" ", "-")
    if not kind:
        kind = "signal%d" % -rc if rc < 0 else "exit%d" % rc
    fn = None
    for m in FRAME.finditer(err):
        if m.group(2).startswith(REPO + "/rct_"):
            fn = short(m.group(1))
            break
    if fn is None:
        fn = "outside-repo"
    detail = err[-200000:]
    i = detail.find("ERROR: AddressSanitizer")
    if i < 0:
        i = detail.find("runtime error:")
    if i < 0:
        i = detail.find("WARNING: ThreadSanitizer")
    i = max(0, i - 300)
    return "crash:%s:%s" % (kind, fn), detail[i:i + 3000]


class Shard:
    def __init__(self, exe, prop, seed, tier, first, step, end, alarm, tmp, env):
        self.a = (exe, prop, seed, tier, step, end, alarm)
        self.next, self.tmp, self.env = first, tmp, env
        self.idx = first
        self.out = os.path.join(tmp, "out%d" % first)
        self.errf = os.path.join(tmp, "err%d" % first)
        self.scr = os.path.join(tmp, "s%d" % first)
        os.makedirs(self.scr, exist_ok=True)
        self.crashes, self.restarts, self.proc = [], 0, None
        self.gave_up = False

    def start(self):
        exe, prop, seed, tier, step, end, alarm = self.a
        self.err = open(self.errf, "w+b")
        self.proc = subprocess.Popen([exe, prop, str(seed), tier, self.out, self.scr, str(alarm), str(self.next),
                                      str(step), str(end)], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                     stderr=self.err, env=self.env, cwd=self.scr)

    def last_case(self):
        last, done = None, False
        if os.path.exists(self.out):
            with open(self.out, "rb") as f:
                for line in f:
                    if line.startswith(b"B "):
                        last, done = int(line[2:]), False
                    elif line.startswith(b"E "):
                        done = True
        return last, done

    def finish(self):
        rc = self.proc.wait()
        self.err.flush()
        self.err.seek(0)
        err = self.err.read().decode("utf-8", "replace")
        self.err.close()
        self.proc = None
        last, done = self.last_case()
        if rc == 0:
            return True
        if rc == 66 and done:  # ThreadSanitizer reports, program ran to its end
            self.crashes.append((last, "tsan", rc, err))
            return True
        if last is None:
            die("the monitor did not start (exit %d): %s" % (rc, err[-2000:]))
        if rc in (98, 99):
            die("the monitor failed (exit %d): %s" % (rc, err[-2000:]))
        if rc == -9:
            die("the monitor was killed at case %d (memory?)" % last)
        self.crashes.append((last, "hang" if rc == -14 else "crash", rc, err))
        self.restarts += 1
        self.next = last + self.a[4]
        if self.next >= self.a[5]:
            return True
        if self.restarts > MAX_RESTARTS:
            self.gave_up = True
            return True
        return False


def run_shards(shards, jobs):
    todo, active = list(shards), []
    while todo or active:
        while todo and len(active) < jobs:
            s = todo.pop(0)
            s.start()
            active.append(s)
        moved = False
        for s in list(active):
            if s.proc.poll() is not None:
                active.remove(s)
                moved = True
                if not s.finish():
                    todo.insert(0, s)
        if not moved:
            time.sleep(0.02)


def load_findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def match(finding, prop, key, detail):
    if finding["property"] != prop or finding["key"] != key:
        return False
    return re.search(finding.get("detail", ""), detail, re.S) is not None


def tsan_reports(err):
    parts = re.split(r"={18,}\n", err)
    for i, part in enumerate(parts):
        mark = re.search(r"VHCASE (\d+)", parts[i + 1] if i + 1 < len(parts) else "")  # written after the report
        mine = int(mark.group(1)) if mark else None
        if "WARNING: ThreadSanitizer" in part:
            fns = []
            for block in re.split(r"\n\s*\n", part):
                for m in FRAME.finditer(block):
                    if m.group(2).startswith(REPO + "/rct_"):
                        fns.append(short(m.group(1)))
                        break
            kind = re.search(r"ThreadSanitizer: ([\w -]+?)(?: \(|$)", part, re.M)
            kind = kind.group(1).replace(" ", "-") if kind else "report"
            yield mine, "race:%s:%s" % (kind, "/".join(sorted(set(fns[:2]))) or "outside-repo"), part[:3000]


def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        t0 = time.time()
        for fl in sorted({f for c in PROPS.values() for f in c.get("flavours", ["asan"])}):
            if fl == "asan":
                build("ALL", fl)
            else:
                for p, c in PROPS.items():
                    if fl in c.get("flavours", ["asan"]):
                        build(p, fl)
        print("built in %.0f s" % (time.time() - t0))
        return 0
    if len(args) < 2 or args[0] not in PROPS or args[1] not in ("quick", "thorough"):
        print(__doc__)
        return 3
    prop, tier = args[0], args[1]
    opt = {args[i][2:]: int(args[i + 1]) for i in range(2, len(args) - 1, 2)}
    cfg = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vh_%s_" % prop)
    violations, known, counts, maxs, samples = [], {}, {}, {}, []
    evaluations, hashes = 0, set()
    unconfirmed = 0
    try:
        for fl in cfg.get("flavours", ["asan"]):
            exe = build(prop, fl)
            env = san_env(fl)
            n = opt.get("cases", cfg[tier if fl != "tsan" or (tier + "_tsan") not in cfg else tier + "_tsan"])
            jobs = opt.get("jobs", cfg.get("jobs", 8))
            alarm = cfg.get("alarm", 60) * (1 if tier == "quick" else 2)
            d = os.path.join(tmp, fl)
            os.makedirs(d)
            if "case" in opt:
                shards = [Shard(exe, prop, seed, tier, opt["case"], 1, opt["case"] + 1, alarm, d, env)]
            else:
                parts = 23 if jobs > 1 else 1  # prime, so that kinds of cases spread over the shards
                shards = [Shard(exe, prop, seed, tier, i, parts, n, alarm, d, env) for i in range(min(parts, n))]
            run_shards(shards, jobs)
            raw = []
            for s in shards:
                with open(s.out, encoding="utf-8", errors="replace") as f:
                    for line in f:
                        t, _, body = line.rstrip("\n").partition(" ")
                        try:
                            if t == "V":
                                v = json.loads(body)
                                raw.append((v["case"], v["key"], v["detail"]))
                            elif t == "E":
                                evaluations += 1
                            elif t == "N":
                                hashes.add(int(body))
                            elif t == "S" and len(samples) < 6:
                                samples.append(json.loads(body))
                            elif t == "C":
                                for k, x in json.loads(body).items():
                                    counts[k] = counts.get(k, 0) + x
                            elif t == "M":
                                for k, x in json.loads(body).items():
                                    maxs[k] = max(maxs.get(k, float("-inf")), float(x))
                        except (ValueError, KeyError) as ex:
                            if not s.crashes:
                                die("unreadable monitor log line: %r (%s)" % (line[:200], ex))
                for case, what, rc, err in s.crashes:
                    if what == "tsan":
                        for at, key, det in tsan_reports(err):
                            raw.append((case if at is None else at, key, det))
                        continue
                    if what == "crash":
                        key, det = crash_key(rc, err)
                        raw.append((case, key, det))
                    else:  # a hang is believed only if it repeats alone with a longer limit
                        r = Shard(exe, prop, seed, tier, case, 1, case + 1, alarm * 3, tempfile.mkdtemp(dir=d), env)
                        run_shards([r], 1)
                        again = [c for c in r.crashes if c[1] == "hang"]
                        other = [c for c in r.crashes if c[1] == "crash"]
                        if again:
                            raw.append((case, "hang", "no answer within %d s, twice" % (alarm * 3)))
                        elif other:
                            key, det = crash_key(other[0][2], other[0][3])
                            raw.append((case, key, det))
                        else:
                            unconfirmed += 1
                if s.gave_up:
                    counts["shards stopped after %d crashes" % MAX_RESTARTS] = \
                        counts.get("shards stopped after %d crashes" % MAX_RESTARTS, 0) + 1
            findings = load_findings()
            for case, key, det in raw:
                f = next((f for f in findings if match(f, prop, key, det)), None)
                if f:
                    known.setdefault(f["what"], []).append(case)
                else:
                    violations.append((case, key, det, fl))
    finally:
        if "KEEP" not in os.environ:
            shutil.rmtree(tmp, ignore_errors=True)
    # the deciding conditions: something was observed
    if "case" not in opt and not violations:
        if evaluations == 0 or counts.get("checks", 0) == 0:
            die("the monitors observed nothing")
        for name, least in cfg.get("least", {}).items():
            if counts.get(name, 0) < least * (opt.get("cases", cfg[tier]) / cfg[tier]):
                die("the monitors observed only %g of '%s' (at least %g expected)" % (counts.get(name, 0), name, least))
    wall = time.time() - t0
    evd = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(hashes), "rule": cfg["rule"],
            "samples": samples, "oracle_checks": int(counts.get("checks", 0)),
            "observed": {k: v for k, v in sorted(counts.items()) if k != "checks"},
            "largest": {k: v for k, v in sorted(maxs.items()) if v == v and abs(v) != float("inf")},
            "flavours": cfg.get("flavours", ["asan"]),
            "slow_cases_not_repeated": unconfirmed,
        },
        "assumptions": cfg.get("assumptions", []) + [
            "holds on the executions produced by this run; nothing is claimed about inputs not generated"],
        "wall_s": round(wall, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if "case" not in opt:
        json.dump(evd, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for what, cases in known.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if violations:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        seen = {}
        for case, key, det, fl in sorted(violations):
            seen.setdefault(key, []).append((case, det, fl))
        for key, l in list(seen.items())[:20]:
            case, det, fl = l[0]
            path = os.path.join("replays", "%s-%s-%d-%s.json" % (prop, seed, case, re.sub(r"\W+", "_", key)[:40]))
            json.dump({"property": prop, "seed": seed, "tier": tier, "flavour": fl, "case": case, "key": key, "detail": det,
                       "cases": [c[0] for c in l][:50],
                       "replay": "VERIF_SEED=%d python3 check.py %s %s --case %d" % (seed, prop, tier, case)},
                      open(os.path.join(HERE, path), "w"), indent=1)
            print("  [%s] x%d, e.g. case %d: %s" % (key, len(l), case, det[:700].replace("\n", "\n    ")))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("%s %s: held on %d cases (%d distinct non-trivial), %d checks, %.0f s" %
          (prop, tier, evaluations, len(hashes), counts.get("checks", 0), wall))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as ex:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        print("CHECK-ERROR: %r" % ex)
        sys.exit(3)
