"""Building the driver, running it and TLC: everything the checks share."""
import concurrent.futures as cf
import hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("YS_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
SANE = ["-fsanitize=address,undefined", "-fsanitize-undefined-trap-on-error", "-fno-omit-frame-pointer",
        "-ftrivial-auto-var-init=pattern"]
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Broken(Exception):
    """The check itself could not be carried out: neither a pass nor a violation."""


class Slow(Broken):
    pass


# ------------------------------------------------------------------ building
def sources():
    out = []
    for top in ("include", "src"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            out += [os.path.join(d, f) for f in fs]
    return sorted(out)

OPTIONAL = ["NO_OTHER_KINDS", "NO_OTHER_JOIN", "NO_OTHER_RANGES"]


def build(kind="asan", tables=None):
    """The driver linked with the library's current sources; cached by their content.
    With tables: a build of its own that takes the headers in that directory in place
    of the library's; None if that does not compile."""
    if tables:
        return build_tables(tables)
    h = hashlib.sha256(kind.encode())
    files = sources() + [os.path.join(VERIF, "harness", "driver.cpp")]
    for f in files:
        h.update(f.encode() + b"\0")
        h.update(open(f, "rb").read())
    out = os.path.join(BUILD, kind + "-" + h.hexdigest()[:20])
    exe = os.path.join(out, "driver")
    if os.path.exists(exe):
        os.utime(out)
        return exe
    os.makedirs(BUILD, exist_ok=True)
    old = sorted((os.path.join(BUILD, f) for f in os.listdir(BUILD)), key=os.path.getmtime)
    for f in old[:-40]:
        shutil.rmtree(f, ignore_errors=True)
    tmp = tempfile.mkdtemp(dir=BUILD)
    gen = os.path.join(tmp, "gen")
    os.makedirs(gen)
    ver = os.path.join(REPO, "include/Ystring/YstringVersion.hpp.in")
    if os.path.exists(ver):
        t = open(ver).read()
        open(os.path.join(gen, "YstringVersion.hpp"), "w").write(re.sub(r"@\w*@", "0", t))
    flags = ["-std=c++20", "-O1", "-g0", "-w", "-D_GLIBCXX_ASSERTIONS", "-pthread",
             "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + gen]
    if kind == "asan":
        flags += SANE
    elif kind == "tsan":
        flags += ["-fsanitize=thread"]
    cpps = [f for f in sources() if f.endswith(".cpp") and "/src/Ystring/" in f]
    cpps.append(os.path.join(VERIF, "harness", "driver.cpp"))

    def one(i):
        o = os.path.join(tmp, "%d.o" % i)
        cmd = ["g++"] + flags + ["-c", cpps[i], "-o", o]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode and i == len(cpps) - 1:
            # A template that no longer takes all kinds of iterators does not stop the other
            # checks: the driver does without, and says so when that call is made.
            for less in [[x] for x in OPTIONAL] + [OPTIONAL]:
                q = subprocess.run(cmd + ["-D" + x for x in less], capture_output=True, text=True)
                if q.returncode == 0:
                    return o
        if r.returncode:
            raise Broken("cannot compile %s:\n%s" % (cpps[i], r.stderr[-3000:]))
        return o
    with cf.ThreadPoolExecutor(8) as ex:
        # the driver takes longest, so it goes first
        objs = list(ex.map(one, reversed(range(len(cpps)))))
    r = subprocess.run(["g++"] + flags + objs + ["-o", os.path.join(tmp, "driver")],
                       capture_output=True, text=True)
    if r.returncode:
        raise Broken("cannot link:\n" + r.stderr[-3000:])
    for o in objs[1:]:
        os.remove(o)
    os.rename(objs[0], os.path.join(tmp, "driver.o"))
    try:
        os.rename(tmp, out)
    except OSError:
        if not os.path.exists(exe):
            raise
        shutil.rmtree(tmp)
    return exe


def build_tables(tables):
    base = os.path.dirname(build())
    tmp = tempfile.mkdtemp(dir=BUILD)
    shutil.copytree(os.path.join(REPO, "src"), tmp + "/src")
    put = 0
    for d, _, fs in os.walk(tmp + "/src"):
        for f in fs:
            if os.path.exists(os.path.join(tables, f)):
                shutil.copy(os.path.join(tables, f), os.path.join(d, f))
                put += 1
    if put != len(os.listdir(tables)):
        shutil.rmtree(tmp)
        raise Broken("some of the tables made are not in src: %s" % os.listdir(tables))
    cpps = [f.replace(REPO + "/src/", tmp + "/src/", 1) for f in sources()
            if f.endswith(".cpp") and "/src/Ystring/" in f]

    def one(f):
        o = f + ".o"
        return subprocess.run(["g++", "-std=c++20", "-O1", "-g0", "-w", "-D_GLIBCXX_ASSERTIONS", "-pthread",
                               "-I" + REPO + "/include", "-I" + tmp + "/src", "-I" + base + "/gen",
                               *SANE, "-c", f, "-o", o], capture_output=True, text=True)
    with cf.ThreadPoolExecutor(8) as ex:
        bad = [r for r in ex.map(one, cpps) if r.returncode]
    if bad:
        shutil.rmtree(tmp)
        return None
    r = subprocess.run(["g++", "-pthread", *SANE] + [f + ".o" for f in cpps] +
                       [base + "/driver.o", "-o", tmp + "/driver"], capture_output=True, text=True)
    if r.returncode:
        raise Broken("cannot link:\n" + r.stderr[-3000:])
    return tmp + "/driver"


# ---------------------------------------------------------------- the driver
ENV = {"ASAN_OPTIONS": "detect_leaks=0:handle_abort=0:hard_rss_limit_mb=6000:"
                       "allocator_may_return_null=1:max_allocation_size_mb=3000:"
                       "print_summary=0:symbolize=0:max_malloc_fill_size=1048576:detect_stack_use_after_return=0",
       "TSAN_OPTIONS": "exitcode=66:halt_on_error=0:report_signal_unsafe=0:symbolize=0"}


def drive(exe, sessions, out, opts=(), limit=600, pure=False):
    """Run sessions (lists of calls) through the driver; the trace goes to `out`.
    After a crash or hang the driver is started again behind the session at fault,
    so every session has its line."""
    script = out + ".script"
    with open(script, "w") as f:
        for s in sessions:
            f.write(json.dumps(s if pure else {"c": s}, separators=(",", ":")) + "\n")
    env = dict(os.environ, **ENV)
    start, restarts, end = 0, 0, time.time() + limit
    if os.path.exists(out):
        os.remove(out)
    while True:
        try:
            r = subprocess.run([exe, *opts, "--start", str(start), script, out], env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            raise Slow("the driver took too long")
        if r.returncode == 0:
            break
        if r.returncode == 3:
            raise Broken("the driver rejects its script: " + r.stderr.decode("latin1")[-500:])
        done = sum(1 for _ in open(out, "rb")) if os.path.exists(out) else 0
        if pure:
            return r
        if done <= start:       # died without a word: say so on its behalf
            with open(out, "a") as f:
                f.write(json.dumps({"c": sessions[start], "r": [["crash"]]}) + "\n")
            done = start + 1
        start = done
        restarts += 1
        if start >= len(sessions):
            break
        if restarts >= 40:      # enough evidence; leave the rest out
            break
    if not pure:
        os.remove(script)
    return r


# ---------------------------------------------------------------------- TLC
def tlc(module, cfg, env=None, dump=None, limit=800, extra=(), xss="256m"):
    """Run TLC in a scratch directory; returns (states generated, distinct, output)."""
    meta = tempfile.mkdtemp(prefix="ys-tlc-")
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx12g", "-Xss" + xss, "-cp", JARS, "tlc2.TLC", "-metadir", meta,
           "-workers", "8", "-noGenerateSpecTE", "-config", cfg + ".cfg"]
    if dump:
        cmd += ["-dump", dump]
    cmd += list(extra) + [module + ".tla"]
    e = {**os.environ, "YS_UNIDATA": os.path.join(SPEC, "unidata.json"), **(env or {})}
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=limit, errors="replace")
    except subprocess.TimeoutExpired:
        raise Broken("TLC took too long on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r"^(\d+) states generated, (\d+) distinct states found, 0 states left",
                  r.stdout, re.M)
    ok = r.returncode == 0 and m and "No error has been found" in r.stdout
    if not ok:
        i = r.stdout.find("Starting...")
        raise Broken("TLC failed on %s (exit %d):\n%s" % (module, r.returncode, r.stdout[i:][:4000]))
    return int(m.group(1)), int(m.group(2)), r.stdout


def parse_dump(path, var):
    """The values of one variable in all dumped states."""
    out, cur, take = [], [], False
    for line in open(path + ".dump"):
        if line.startswith("State "):
            take = False
            continue
        if line.startswith("/\\ "):
            if cur:
                out.append("".join(cur)); cur = []
            take = line.startswith("/\\ %s = " % var)
            if take:
                cur = [line[len(var) + 6:].strip()]
        elif line.strip() == "":
            if cur:
                out.append("".join(cur)); cur = []
            take = False
        elif take:
            cur.append(" " + line.strip())
    if cur:
        out.append("".join(cur))
    return [json.loads(x.replace("<<", "[").replace(">>", "]")) for x in out]


# -------------------------------------------------------------------- traces
def count_calls(trace):
    n, s = 0, 0
    for line in open(trace):
        s += 1
        d = json.loads(line)
        n += len(d["r"])
    return s, n


def validate(trace, module="Trace", limit=800, unidata=None):
    """Check a trace against the specification.
    Returns (states, transitions, rejections) with rejections a list of
    (session number from 0, call number from 0, details)."""
    gen, distinct, out = tlc(module, module, {"YS_TRACE": trace, **({"YS_UNIDATA": unidata} if unidata else {})}, limit=limit)
    rej = []
    for m in re.finditer(r'<<\s*"REJECTED",\s*(\d+),\s*(\d+),\s*(".*?[^\\]")\s*>>', out, re.S):
        txt = re.sub(r"\n\s*", "", m.group(3))
        try:
            d = json.loads(json.loads(txt))
        except ValueError:
            d = {"raw": txt[:2000]}
        rej.append((int(m.group(1)) - 1, int(m.group(2)) - 1, d))
    return gen, distinct, sorted(rej, key=lambda x: (x[0], x[1]))
