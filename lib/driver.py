#!/usr/bin/env python3
"""Builds a monitor harness against /repo's working tree, runs it on all cores,
collects what the monitors observed, and gives the verdict for one property.

Exit 0: held on everything observed. Exit 1 + "VIOLATION property=.. replay=..".
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(VERIF, "harness")
CACHE = os.path.join(VERIF, "build", "cache")
EVID = os.path.join(VERIF, "evidence")
JOBS = os.cpu_count() or 4

UBSAN = ("undefined,bounds", "nonnull-attribute,pointer-overflow,shift-base,function,vptr")
MODES = {
    # clang, optimised enough to be quick, frames kept for reports
    "asan": ["-O1", "-g", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern", "-fsanitize=address," + UBSAN[0],
             "-fno-sanitize=" + UBSAN[1], "-fno-sanitize-recover=all", "-fsanitize-address-use-after-return=always"],
    "vg": ["-O1", "-g", "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=thread"],
}
WRAP = ["-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc,--wrap=strdup"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


class BuildError(Exception):
    pass


def repo_groups():
    """Source lists of /repo's libraries, taken from its own CMake files so that
    files added or renamed by a change are picked up."""
    groups = {
        "iso7816": ["iso7816.c", "iso7816_compact_tlv.c", "iso7816_strings.c"],
        "iso8825": ["iso8825_ber.c"],
        "emv": ["emv.c", "emv_fields.c", "emv_tlv.c", "emv_dol.c", "emv_debug.c", "emv_ttl.c", "emv_app.c", "emv_tal.c"],
        "emv_strings": ["emv_strings.c", "isocodes_lookup.cpp", "mcc_lookup.cpp"],
        "pcsc": ["pcsc.c"],
    }
    try:
        txt = open(os.path.join(REPO, "src", "CMakeLists.txt")).read()
        txt = re.sub(r"#.*", "", txt)
        for g in list(groups):
            m = re.search(r"add_library\(\s*%s\s+([^)]*)\)" % g, txt)
            if m:
                files = [f for f in m.group(1).split() if re.search(r"\.(c|cpp)$", f)]
                if files and all(os.path.exists(os.path.join(REPO, "src", f)) for f in files):
                    groups[g] = files
    except OSError:
        pass
    groups["iso8859"] = ["iso8859_boost.cpp"]
    out = {g: [os.path.join(REPO, "src", f) for f in fs] for g, fs in groups.items()}
    out["iso8859_iconv"] = [os.path.join(REPO, "src", "iso8859_iconv.c")]
    out["iso8859_simple"] = [os.path.join(REPO, "src", "iso8859_simple.c")]
    return out


def tool_sources(path):
    """path and the files that /repo's CMake file builds together with it."""
    out = [os.path.join(REPO, path)]
    d, base = os.path.split(path)
    try:
        txt = re.sub(r"#.*", "", open(os.path.join(REPO, d, "CMakeLists.txt")).read())
        for m in re.finditer(r"(?:add_executable|add_library|target_sources)\(\s*([\w-]+)\s+([^)]*)\)", txt):
            if m.group(1) == os.path.splitext(base)[0]:
                out += [os.path.join(REPO, d, f) for f in m.group(2).split()
                        if re.search(r"\.(c|cpp)$", f) and "/" not in f and f != base and os.path.exists(os.path.join(REPO, d, f))]
    except OSError:
        pass
    return out


_hdr_hash = None


def header_hash(gen):
    global _hdr_hash
    if _hdr_hash is None:
        h = hashlib.sha256()
        roots = [os.path.join(REPO, "src"), os.path.join(REPO, "tools"), os.path.join(REPO, "tests"), H, gen]
        for root in roots:
            for d, _, fs in sorted(os.walk(root)):
                for f in sorted(fs):
                    if f.endswith((".h", ".hpp", ".inc", ".def")):
                        h.update(f.encode())
                        h.update(open(os.path.join(d, f), "rb").read())
        _hdr_hash = h.hexdigest()
    return _hdr_hash


def gen_config(gen):
    os.makedirs(gen, exist_ok=True)
    src = os.path.join(REPO, "src", "emv_utils_config.h.in")
    vals = {
        "EMV_UTILS_VERSION_STRING": "verif", "HAVE_TIME_H": "", "HAVE_TIMESPEC_GET": "", "HAVE_CLOCK_GETTIME": "",
        "IsoCodes_JSON_PATH": "/usr/share/iso-codes/json",
        "MCC_JSON_BUILD_PATH": "/nonexistent/mcc_codes.json",
        "MCC_JSON_INSTALL_PATH": os.path.join(H, "data", "mcc_codes.json"),
    }
    txt = open(src).read()
    out = []
    for line in txt.splitlines():
        m = re.match(r"#cmakedefine\s+(\w+)(.*)", line)
        if m:
            line = "#define %s%s" % (m.group(1), m.group(2)) if m.group(1) in vals else "/* #undef %s */" % m.group(1)
        line = re.sub(r"@(\w+)@", lambda mm: vals.get(mm.group(1), ""), line)
        out.append(line)
    new = "\n".join(out) + "\n"
    p = os.path.join(gen, "emv_utils_config.h")
    if not os.path.exists(p) or open(p).read() != new:
        open(p, "w").write(new)


def compile_one(src, mode, extra, gen):
    cxx = src.endswith((".cpp", ".cc"))
    cc = ["clang++", "-std=c++17"] if cxx else ["clang", "-std=gnu11"]
    inc = ["-I" + gen, "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "tests"),
           "-I" + os.path.join(REPO, "tools"), "-I" + H, "-isystem", "/usr/include/PCSC", "-isystem", "/usr/include/json-c"]
    extra = list(extra)
    if mode == "asan" and (src.startswith(REPO + "/") or os.path.basename(src).startswith("shim_")):
        extra += ["-fsanitize-coverage=inline-8bit-counters,trace-cmp"]
    cmd = cc + ["-w", "-DEMV_DEBUG_ENABLED", "-D_GNU_SOURCE"] + MODES[mode] + extra + inc + ["-c", src]
    h = hashlib.sha256()
    h.update("\0".join(cmd).encode())
    h.update(open(src, "rb").read())
    h.update(header_hash(gen).encode())
    for inc in re.findall(rb'#include "(h_\w+\.cpp|shim_\w+\.c)"', open(src, "rb").read()):
        h.update(open(os.path.join(H, inc.decode()), "rb").read())
    obj = os.path.join(CACHE, h.hexdigest()[:32] + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = sh(cmd + ["-o", tmp])
        if r.returncode != 0:
            raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")))
        os.replace(tmp, obj)
    return obj


def build(name, sources, groups, libs, mode, cflags=(), per_file=None, nowrap=False, nomain=False):
    """Returns path of the linked binary."""
    os.makedirs(CACHE, exist_ok=True)
    gen = os.path.join(VERIF, "build", "gen")
    gen_config(gen)
    rg = repo_groups()
    srcs = []
    for s in sources:
        if s.startswith("repo:"):
            srcs += [x for x in tool_sources(s[5:]) if x not in srcs]
        else:
            srcs.append(os.path.join(H, s))
    if not nomain:
        srcs.append(os.path.join(H, "vh_main.cpp"))
    for g in groups:
        srcs += rg[g]
    per_file = per_file or {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        # biggest first
        order = sorted(srcs, key=lambda s: -os.path.getsize(s))
        futs = {s: ex.submit(compile_one, s, mode, list(cflags) + per_file.get(os.path.basename(s), []), gen) for s in order}
        objs = [futs[s].result() for s in srcs]
    out = os.path.join(VERIF, "build", "%s.%s.%d" % (name, mode, os.getpid()))
    cmd = ["clang++"] + MODES[mode] + objs + ([] if nowrap else WRAP) + list(libs) + ["-lpthread", "-o", out]
    r = sh(cmd)
    if r.returncode != 0:
        raise BuildError("link: " + r.stdout.decode(errors="replace"))
    return out


SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=66:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:"
                    "strict_string_checks=1:symbolize=1:handle_abort=1:max_allocation_size_mb=2048:malloc_context_size=12",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=66:symbolize=1",
    "TSAN_OPTIONS": "suppressions=" + os.path.join(H, "data", "tsan.supp") + ":exitcode=66:halt_on_error=1:second_deadlock_stack=1:report_signal_unsafe=0",
    "ASAN_SYMBOLIZER_PATH": "/usr/bin/llvm-symbolizer",
}


def env_for():
    e = dict(os.environ)
    e.update(SAN_ENV)
    for p in ("/usr/bin/llvm-symbolizer", "/usr/bin/llvm-symbolizer-18", "/usr/lib/llvm-18/bin/llvm-symbolizer"):
        if os.path.exists(p):
            e["ASAN_SYMBOLIZER_PATH"] = p
            e["LLVM_SYMBOLIZER_PATH"] = p
            e["TSAN_SYMBOLIZER_PATH"] = p
            e["UBSAN_SYMBOLIZER_PATH"] = p
            e["PATH"] = os.path.dirname(p) + ":" + e.get("PATH", "/usr/bin:/bin")
            break
    e["LANG"] = e["LC_ALL"] = "C.UTF-8"
    e["TZ"] = "UTC"
    return e


def crash_key(log):
    """Stable identity of a crash: kind + first frame inside the code under test."""
    kind = "crash"
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", log)
    if m:
        kind = m.group(1)
    else:
        m = re.search(r"runtime error: ([^\n]*)", log)
        if m:
            kind = "ub:" + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1))[:80]
        elif "WARNING: ThreadSanitizer" in log:
            m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", log)
            kind = "tsan:" + (m.group(1).strip() if m else "")
        elif re.search(r"==\d+== (Conditional jump|Use of uninit|Invalid read|Invalid write|Syscall param|Invalid free)", log):
            m = re.search(r"==\d+== (Conditional jump|Use of uninit|Invalid read|Invalid write|Syscall param|Invalid free)", log)
            kind = "memcheck:" + m.group(1)
        elif re.search(r"terminate called", log):
            kind = "uncaught-exception"
    where = ""
    for m in re.finditer(r"(?:#\d+ 0x[0-9a-f]+ in (\S+)[^\n]*?|(?:at|by) 0x[0-9A-F]+: (\S+) \()(%s/\S+|\w+\.(?:c|cpp|h):\d+)" % re.escape(REPO), log):
        fn = m.group(1) or m.group(2)
        loc = m.group(3)
        if REPO + "/" in loc or m.group(2):
            where = fn
            break
    if not where and kind.startswith("tsan:"):
        m = re.search(r"#\d+ (\w+) %s/" % re.escape(REPO), log)
        where = m.group(1) if m else ""
    if not where:
        m = re.search(r"(%s/\S+?):\d+:\d+: runtime error" % re.escape(REPO), log)
        if m:
            where = os.path.basename(m.group(1))
    return "%s@%s" % (kind, where or "?")


def read_cur(path):
    try:
        b = open(path, "rb").read()
        suite = b[:48].split(b"\0")[0].decode(errors="replace")
        idx, hang = struct.unpack_from("<QQ", b, 48)
        note = b[64:64 + 4096].split(b"\0")[0].decode(errors="replace")
        seed, tidx, on, n = struct.unpack_from("<QQQQ", b, 4168)
        tape = " ".join("%x" % x for x in (seed, tidx) + struct.unpack_from("<%dQ" % n, b, 4200)) if on else ""
        return suite, idx, hang, note, tape
    except Exception:
        return "?", 0, 0, "", ""


def load_known(prop):
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"known: property=(\S+) key=(\S+) ?(.*)", line)
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def key_known(known, key):
    for k, d in known:
        if k == key:
            return (k, d)
    return None


class Run:
    """One harness in one mode."""

    def __init__(self, prop, binary, mode, seed, scale, scratch, tag, workers=JOBS, timeout=800, cpu=60, args=(), guided=0):
        self.prop, self.binary, self.mode, self.seed, self.scale = prop, binary, mode, seed, scale
        self.scratch, self.tag, self.workers, self.timeout, self.cpu = scratch, tag, workers, timeout, cpu
        self.args = list(args)
        self.guided = guided
        self.violations = []   # dicts: key, suite, case, msg, log
        self.stats = []

    def cmd(self, worker, stats, cur, skip, only=None, tape=None):
        c = []
        if self.mode == "vg":
            c += ["valgrind", "-q", "--error-exitcode=66", "--exit-on-first-error=yes", "--track-origins=no",
                  "--leak-check=no", "--num-callers=16", "--undef-value-errors=yes"]
        c += [self.binary, "--seed", str(self.seed), "--scale", repr(self.scale), "--stats", stats, "--cur", cur,
              "--data", os.path.join(H, "data"), "--repo", REPO, "--scratch", self.scratch, "--cpu", str(self.cpu * (10 if self.mode == "vg" else 1))]
        if self.mode == "vg":
            c += ["--fixed-max", str(max(8, int(self.scale * 4)))]
        if only:
            c += ["--suite", only[0], "--case", str(only[1]), "--verbose"]
            if tape:
                c += ["--tape", tape]
        else:
            c += ["--workers", str(self.workers), "--worker", str(worker)]
            if skip:
                c += ["--skip", skip]
            if self.guided and self.mode == "asan":
                c += ["--guided", repr(self.guided)]
        return c + self.args

    def one(self, worker, known):
        base = os.path.join(self.scratch, "%s.%d" % (self.tag, worker))
        skips = []
        for attempt in range(40):
            stats, cur, log, skip = base + ".stats", base + ".cur", base + ".log", base + ".skip"
            for p in (stats, cur):
                if os.path.exists(p):
                    os.unlink(p)
            if skips:
                open(skip, "w").write("".join("%s %d\n" % s for s in skips))
            with open(log, "wb") as lf:
                try:
                    rc = subprocess.run(self.cmd(worker, stats, cur, skip if skips else None), stdout=lf, stderr=lf,
                                        stdin=subprocess.DEVNULL, env=env_for(), timeout=self.timeout, cwd=self.scratch).returncode
                except subprocess.TimeoutExpired:
                    rc = "timeout"
            if rc in (0, 3) and os.path.exists(stats):
                st = json.load(open(stats))
                self.stats.append(st)
                for v in st["violations"]:
                    self.violations.append({"key": v["rule"], "suite": v["suite"], "case": v["case"], "msg": v["msg"], "log": "", "tape": v.get("tape", "")})
                return
            # crashed, hung or was stopped: replay the case alone
            suite, idx, hang, note, tape = read_cur(cur)
            if tape:
                open(base + ".tape", "w").write(tape)
            txt = open(log, "rb").read().decode(errors="replace")[-20000:]
            rlog = ""
            confirmed = False
            try:
                r = subprocess.run(self.cmd(0, stats, cur + ".r", None, (suite, idx), base + ".tape" if tape else None), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   stdin=subprocess.DEVNULL, env=env_for(), timeout=max(120, self.cpu * (20 if self.mode == "vg" else 3)), cwd=self.scratch)
                rlog = r.stdout.decode(errors="replace")
                confirmed = r.returncode not in (0, 3)
                hang2 = r.returncode == 97
            except subprocess.TimeoutExpired as e:
                rlog = (e.stdout or b"").decode(errors="replace")
                confirmed, hang2 = True, True
            use = rlog if confirmed else txt
            if rc == "timeout" and not confirmed:
                # the machine was too slow for the whole worker, no single case hangs: inconclusive, not a violation
                print("note: worker %d of %s stopped by the wall limit (no case hangs)" % (worker, self.tag))
                return
            if (hang or rc == 97) and not (confirmed and hang2):
                print("note: case %s/%d used too much CPU once and not again" % (suite, idx))
                skips.append((suite, idx))
                continue
            key = "hang@" + suite if (hang or rc in (97, "timeout")) else crash_key(use)
            self.violations.append({"key": key, "suite": suite, "case": idx, "msg": "monitor stopped the process (rc=%s)%s %s" % (rc, "" if confirmed else " (not reproduced alone)", note), "log": use[-12000:], "tape": tape})
            if not key_known(known, key):
                return
            skips.append((suite, idx))

    def run(self, known):
        with cf.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(lambda w: self.one(w, known), range(self.workers)))


def finish(prop, tier, seed, level, runs, known, t0, assumptions=(), extra=None, extra_viol=()):
    os.makedirs(EVID, exist_ok=True)
    ev, suites, rules, samples, required = {}, {}, [], [], set()
    evals = 0
    hashes = set()
    modes = {}
    for r in runs:
        for st in r.stats:
            evals += st["evaluations"]
            modes[r.mode] = modes.get(r.mode, 0) + st["evaluations"]
            for k, v in st["events"].items():
                ev[k] = ev.get(k, 0) + v
            for k, v in st["suites"].items():
                suites[r.tag + ":" + k] = suites.get(r.tag + ":" + k, 0) + v
            if st["rule"] not in rules:
                rules.append(st["rule"])
            samples += st["samples"]
            required |= set(st["required"])
            hashes |= set(st["hashes"])
        if r.guided and r.mode == "asan":
            required |= {"guided-kept", "guided-new-edge"}
    viol = [v for r in runs for v in r.violations] + list(extra_viol)
    complete = all(len(r.stats) == r.workers for r in runs)
    if not viol and complete:
        for q in sorted(required):
            if not ev.get(q):
                viol.append({"key": "vacuous:" + q, "suite": "-", "case": 0, "msg": "the workload no longer makes the monitored event '%s' happen" % q, "log": ""})
    new, old = [], {}
    for v in viol:
        k = key_known(known, v["key"])
        if k:
            old[k[0]] = k[1]
        else:
            new.append(v)
    for k, d in sorted(old.items()):
        print("KNOWN-FINDING: property=%s %s %s" % (prop, k, d))
    cov = {
        "evaluations": evals, "distinct_nontrivial": len(hashes), "rule": " / ".join(rules),
        "samples": samples[:8] or ["-"], "executions_by_monitor": modes, "cases_by_suite": suites, "observed_events": ev,
    }
    if extra:
        cov.update(extra)
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": list(assumptions),
               "wall_s": round(time.time() - t0, 2), "violations": len(new)},
              open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    if new:
        rd = os.path.join(EVID, "replays")
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for v in new:
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            rp = os.path.join(rd, "%s-%d.txt" % (prop, len(seen)))
            how = ""
            if v.get("tape"):
                open(rp[:-4] + ".tape", "w").write(v["tape"] + "\n")
                how = " --tape " + rp[:-4] + ".tape"
            open(rp, "w").write("property=%s key=%s suite=%s case=%s seed=%s tier=%s\n%s\n\nreplay: python3 /verif/check.py %s --replay %s %s%s (VERIF_SEED=%s)\n\n%s\n" % (
                prop, v["key"], v["suite"], v["case"], seed, tier, v["msg"], prop, v["suite"], v["case"], how, seed, v["log"]))
            print("  %s: %s/%s: %s" % (v["key"], v["suite"], v["case"], v["msg"][:600]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("OK property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs" % (prop, tier, evals, len(hashes), time.time() - t0))
    return 0
