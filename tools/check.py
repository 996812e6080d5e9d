#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]
   check.py --replay FILE          run a recorded violation again
   check.py --setup                see that everything needed is there

Decides one property: model-checks the specification (theorems about every case of a
finite domain, or about every short history), puts exactly these cases and many
random ones to the library built from /repo's current tree, and lets TLC decide
whether the specification explains every reply.
Exit 0: it does.  1: it does not (VIOLATION line).  2: the check could not be done."""
import concurrent.futures, json, os, shutil, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen, mkunidata, plans, tables, ylib
from ylib import Broken

OUT = os.path.join(ylib.VERIF, "out")
EVID = os.path.join(ylib.VERIF, "evidence")
KNOWN = os.path.join(ylib.VERIF, "KNOWN_FINDINGS.txt")


def log(*a):
    print(*a, flush=True)


class Tally:
    def __init__(self):
        self.states = self.transitions = self.sessions = self.calls = 0
        self.model_states = 0
        self.samples = []
        self.scripts = 0
        self.modules = []


# ----------------------------------------------------------------- known findings
def known(prop):
    """Lines 'known: property=<id> calls=<json> what' suppress exactly that input."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("known: property=%s " % prop):
                d = line.split(" ", 3)
                out.append((json.loads(d[2][len("calls="):]), d[3].strip()))
    return out


# -------------------------------------------------------------------- model runs
def model(t, module, k, limit=700):
    """Check the theorems of a module; returns the sessions that put its cases to the library."""
    src = open(os.path.join(ylib.SPEC, module + ".tla")).read()
    frame = "Explore" if "EXTENDS Explore" in src else "Cases"
    dump = os.path.join(OUT, module + "-" + str(os.getpid()))
    t0 = time.time()
    try:
        gen_, distinct, _ = ylib.tlc(module, frame, {"YS_BOUND": str(k)}, dump=dump, limit=limit)
        scripts = [s for s in ylib.parse_dump(dump, "script" if frame == "Cases" else "hist") if s]
    finally:
        if os.path.exists(dump + ".dump"):
            os.remove(dump + ".dump")
    if frame == "Explore":
        # Histories that others continue add nothing.
        more = {json.dumps(h[:-1]) for h in scripts}
        scripts = [h for h in scripts if json.dumps(h) not in more]
    if not scripts:
        raise Broken("the model has no cases: " + module)
    t.states += distinct
    t.model_states += distinct
    t.transitions += gen_
    t.scripts += len(scripts)
    t.modules.append("%s bound %s: %d states" % (module, k, distinct))
    log("  %s (bound %s): theorems hold in %d states, %d sessions to replay, %.1fs"
        % (module, k, distinct, len(scripts), time.time() - t0))
    return scripts


# ---------------------------------------------------------------------- validation
def run(t, exe, sessions, validator, opts=(), tag="t", unidata=None):
    """Drive, validate; returns rejections [(session index, call index, details)] and the trace."""
    trace = os.path.join(OUT, "%s-%d.ndjson" % (tag, os.getpid()))
    t0 = time.time()
    ylib.drive(exe, sessions, trace, opts)
    t1 = time.time()
    s, c = ylib.count_calls(trace)
    if s == 0:
        raise Broken("the driver recorded nothing")
    gen_, distinct, rej = ylib.validate(trace, validator, unidata=unidata)
    lines = None
    # Every session and every reply up to its first unexplained one is a state.
    want = s + c
    if rej:
        lines = [json.loads(x) for x in open(trace)]
        for i, k, _ in rej:
            want -= len(lines[i]["r"]) - (k + 1)
    if distinct > want or (not rej and distinct != want):
        raise Broken("the trace was not checked in full: %d states, %d expected" % (distinct, want))
    t.states += distinct
    t.transitions += gen_ - s
    t.sessions += s
    t.calls += c
    log("  %d sessions, %d calls: %d unexplained replies; driver %.1fs, TLC %.1fs"
        % (s, c, len(rej), t1 - t0, time.time() - t1))
    if len(t.samples) < 4:
        with open(trace) as f:
            for n, x in enumerate(f):
                if n in (1, s // 2, s - 1) and len(x) < 3000:
                    d = json.loads(x)
                    t.samples.append({"calls": d["c"][:6], "replies": d["r"][:6]})
    return rej, trace


FAMILIES = [{"view_set", "pop", "pop_last", "remove", "remove_last", "unescape_next"},
            {"tok_new", "tok_next", "tok_obs"},
            {"set_new", "set_neg", "set_range", "set_cp", "set_cps", "set_has", "set_ci", "set_print"}]


def shorten(session, replies, k):
    """The part of a session that matters for call k, by the specification."""
    c = session[k]
    start, text = 0, None
    res = None
    for i in range(k):
        op = session[i][0]
        r = replies[i] if i < len(replies) else ["?"]
        if op in ("text", "text_rep"):
            start, text, res = i, session[i], None
        elif op == "keep":
            if res is None:
                continue
            start, text, res = i, ["text", res], None
        elif len(r) == 2 and r[0] == "ok" and isinstance(r[1], list) and (not r[1] or isinstance(r[1][0], int)):
            res = r[1]
    for f in FAMILIES:
        if c[0] in f:
            first = 0 if c[0].startswith("set") else start
            return ([text] if text else []) + [x for x in session[first:k + 1] if x[0] in f]
    if c[0] == "keep":
        return session[:k + 1]
    return ([text] if text else []) + [c]


def confirm(prop, exe, sessions, trace, rej, validator, opts, unidata=None, more=None):
    """Repeat what was rejected in isolation; write the replay file; returns its path."""
    lines = [json.loads(x) for x in open(trace)]
    quiet = Tally()
    quiet.samples = [0] * 9
    seen = {}
    cands = []
    for i, k, d in rej:
        op = json.dumps(d["c"][0]) if isinstance(d, dict) and "c" in d else "?"
        seen[op] = seen.get(op, 0) + 1
        if seen[op] <= 3 and len(cands) < 12:
            cands.append((i, k, d))
    trials = []
    for i, k, d in cands:
        L = lines[i]
        trials.append((i, k, d, shorten(L["c"], L["r"], k)))
        trials.append((i, k, d, L["c"][:k + 1]))
    again, tr = run(quiet, exe, [x[3] for x in trials], validator, opts, "confirm", unidata)
    hit = {x[0]: x for x in again}
    os.remove(tr)
    best = None
    for n, (i, k, d, s) in enumerate(trials):
        if n in hit:
            key = (len(s), len(json.dumps(s)))
            if best is None or key < best[0]:
                best = (key, s, hit[n][2])
    how = "isolated"
    if best is None:
        # Not repeatable by itself.  A crash or hang that does not return may be the machine's.
        i, k, d = cands[0]
        if lines[i]["r"][k][0] in ("crash", "hang"):
            raise Broken("a %s that did not happen again" % lines[i]["r"][k][0])
        best = (None, lines[i]["c"][:k + 1], d)
        how = "recorded once; depends on what came before"
    path = os.path.join(OUT, "%s-violation.json" % prop)
    d = best[2]
    with open(path, "w") as f:
        json.dump({"property": prop, "validator": validator, "options": list(opts), "how": how,
                   "session": best[1], "call": d.get("c"), "reply": d.get("r"),
                   "expected_one_of": d.get("expected"), "rejections": len(rej), **(more or {})}, f)
    log("  unexplained: %s" % json.dumps({"session": best[1], "reply": d.get("r"),
                                          "expected": d.get("expected")})[:1500])
    return path


def matches_known(d, sessions_call, finds):
    return any(sessions_call == c for c, _ in finds)


# ------------------------------------------------------------------------ properties
def violation(prop, path):
    log("VIOLATION property=%s replay=%s" % (prop, path))


def explore(prop, tier, seed, t):
    plan = plans.PLANS[prop]
    validator = plan.get("validator", "Trace")
    exe = ylib.build()
    k = plan["bound"][tier == "thorough"]
    limit = 120 if tier == "quick" else 700
    sessions = []
    for m in plan["modules"]:
        sessions += model(t, m, k[m] if isinstance(k, dict) else k, limit)
    n, calls = plan.get("random", (600, 40))
    budget = 0 if tier == "quick" else float(os.environ.get("YS_SECONDS", "420"))
    t0, batch = time.time(), 0
    opts = plan.get("opts", ())
    finds = known(prop)
    for calls_known, what in finds:
        rej, tr = run(t, exe, [calls_known], validator, opts, "known")
        log("KNOWN-FINDING: property=%s %s" % (prop, what) if rej else "  (known finding no longer fails: %s)" % what)
    while True:
        g = gen.Gen("%s-%d-%d" % (prop, seed, batch))
        for a, v in plan.get("gen", {}).items():
            setattr(g, a, v)
        if batch == 0:
            for f in plan.get("extra", ()):
                sessions += f(g, tier)
        sessions += plans.random_sessions(g, plan, n * (6 if tier == "quick" else 8), calls)
        rej, trace = run(t, exe, sessions, validator, opts, prop)
        if rej:
            lines = [json.loads(x) for x in open(trace)]
            rej = [(i, k2, d) for i, k2, d in rej
                   if not any(shorten(lines[i]["c"], lines[i]["r"], k2) == c for c, _ in finds)]
        if rej:
            violation(prop, confirm(prop, exe, sessions, trace, rej, validator, opts))
            os.remove(trace)
            return 1
        os.remove(trace)
        if time.time() - t0 >= budget:
            break
        batch += 1
        sessions = []
    return 0


# ------------------------------------------------------------- purity (Y33)
def merge(lines):
    """One pool from several executions of the same keys."""
    ids, d, e = {}, [], []
    for x in lines:
        for k, r in x["e"]:
            key = json.dumps(x["d"][r - 1])
            if key not in ids:
                d.append(x["d"][r - 1])
                ids[key] = len(d)
            e.append([k, ids[key]])
    return {"k": lines[0]["k"], "e": e, "d": d}


def well_formed(x, pool):
    """Whether a recorded line is one: a driver whose memory was overwritten may write anything."""
    try:
        return (all(0 < k <= len(pool) and x["d"][r - 1] and r > 0 for k, r in x["e"])
                and all(isinstance(d, list) and d
                        and all(y and isinstance(y[0], str) for y in (d if isinstance(d[0], list) else [d]))
                        for d in x["d"]))
    except (TypeError, KeyError, IndexError, ValueError):
        return False


def pure_run(exe, pools, scheds, tag, opts=()):
    """Execute pools as scheduled; the lines recorded, up to the first that is none, and the process."""
    out = os.path.join(OUT, "%s-%d.ndjson" % (tag, os.getpid()))
    S = [{"k": p, "s": s, "n": [n]} for p, (s, n) in zip(pools, scheds)]
    r = None
    for attempt in (1, 2):
        try:
            r = ylib.drive(exe, S, out, opts=("--pure", *opts), pure=True, limit=180)
            break
        except ylib.Slow:
            # Threads that wait for each other for good use no time of the processor's.
            if tag != "threads":
                raise
    lines = []
    with open(out, errors="replace") as f:
        for p, x in zip(pools, f):
            try:
                d = json.loads(x)
            except ValueError:
                break
            if not well_formed(d, p):
                break
            lines.append(d)
    os.remove(out)
    os.remove(out + ".script")
    return lines, r


def pure(prop, tier, seed, t):
    exe = ylib.build("asan")
    exe2 = ylib.build("plain")
    exe3 = ylib.build("tsan")
    plan = plans.PLANS[prop]
    budget = 0 if tier == "quick" else float(os.environ.get("YS_SECONDS", "420"))
    k = plan["bound"][tier == "thorough"]
    sessions = []
    for m in plan["modules"]:
        sessions += model(t, m, k, 700)
    t0, batch = time.time(), 0
    while True:
        g = gen.Gen("%s-%d-%d" % (prop, seed, batch))
        for a, v in plan.get("gen", {}).items():
            setattr(g, a, v)
        pools = plans.pools(g, sessions if batch == 0 else [], 60 if tier == "quick" else 150)
        # What every piece of work gives in a process of its own ...
        first, _ = pure_run(exe, pools, [(list(range(1, len(p) + 1)), 0) for p in pools], "alone")
        if len(first) != len(pools):
            raise Broken("the driver did not finish")
        # (what crashes there is not this property's business)
        keep = []
        for p, x in zip(pools, first):
            ok = {kk for kk, r in x["e"] if not any(y[:1] == ["crash"] for y in x["d"][r - 1])}
            keep.append([w for i, w in enumerate(p) if i + 1 in ok])
        if any(len(a) != len(b) for a, b in zip(keep, pools)):
            pools = [p for p in keep if p]
            first, _ = pure_run(exe, pools, [(list(range(1, len(p) + 1)), 0) for p in pools], "alone")
        runs = [first]
        r = g.r
        for kind, opts, ex in (("seq", (), exe), ("seq", ("--reuse",), exe), ("turns", ("--reuse",), exe),
                               ("turns", (), exe2), ("threads", ("--reuse",), exe2), ("threads", (), exe2),
                               ("threads", (), exe3)):
            sch = []
            for p in pools:
                n = len(p)
                s = [r.randrange(n) + 1 for _ in range(n)] + r.sample(range(1, n + 1), n) + list(range(n, 0, -1))
                if kind == "turns":
                    s = [s[i:i + 3] for i in range(0, len(s), 3)]
                sch.append((s, 6 if kind == "threads" else 1))
            x, res = pure_run(ex, pools, sch, kind, opts)
            if ex == exe3 and not x and res and b"FATAL: ThreadSanitizer" in res.stderr:
                log("  (ThreadSanitizer does not work here: no search for data races)")
                continue
            died = x and x[-1]["d"] and x[-1]["d"][-1][:1] in (["crash"], ["hang"])
            if len(x) < len(pools) and not died:
                # the pool that did not survive stands for itself
                x.append({"k": pools[len(x)], "e": [[1, 1]], "d": [["crash"]]})
            runs.append(x + [None] * (len(pools) - len(x)))
        trace = os.path.join(OUT, "pure-%d.ndjson" % os.getpid())
        with open(trace, "w") as f:
            for i in range(len(pools)):
                m = merge([x[i] for x in runs if x[i] is not None])
                m["d"] = [d if isinstance(d[0], list) else [d] for d in m["d"]]
                f.write(json.dumps(m, separators=(",", ":")) + "\n")
        L = [json.loads(x) for x in open(trace)]
        ev = sum(len(x["e"]) for x in L)
        t1 = time.time()
        gen_, distinct, rej = ylib.validate(trace, "Pure")
        if not rej and distinct != ev + len(L):
            raise Broken("the trace was not checked in full: %d states, %d expected" % (distinct, ev + len(L)))
        log("  %d pools, %d executions: %d unexplained; TLC %.1fs" % (len(L), ev, len(rej), time.time() - t1))
        t.states += distinct
        t.transitions += gen_ - len(L)
        t.sessions += len(L)
        t.calls += sum(len(L[i]["k"][e[0] - 1]) - 1 for i in range(len(L)) for e in L[i]["e"])
        if len(t.samples) < 3:
            t.samples.append({"work": L[0]["k"][:2], "executions": L[0]["e"][:8], "replies": L[0]["d"][:2]})
        if rej:
            path = os.path.join(OUT, "%s-violation.json" % prop)
            i, kk, d = rej[0]
            json.dump({"property": prop, "validator": "Pure", "pool": L[i], "event": kk, "work": d.get("c"),
                       "reply": d.get("r"), "expected_one_of": [d.get("expected")]}, open(path, "w"))
            log("  unexplained: %s" % json.dumps(d)[:1500])
            violation(prop, path)
            os.remove(trace)
            return 1
        os.remove(trace)
        if time.time() - t0 >= budget:
            return 0
        batch += 1


# ------------------------------------------------- tables made from data files (Y34)
def with_tables(data):
    """The driver built with tables made from a data file: (its path, None) or (None, what is wrong)."""
    made, bad = tables.make(data)
    try:
        if bad:
            return None, bad
        exe = ylib.build(tables=made)
        return exe, None if exe else "the tables made do not compile"
    finally:
        shutil.rmtree(made)


def made_tables(prop, tier, seed, t):
    plan = plans.PLANS[prop]
    ylib.build()
    scripts = model(t, "MC_Y34", plan["bound"][tier == "thorough"], 700)
    budget = 0 if tier == "quick" else float(os.environ.get("YS_SECONDS", "420"))
    t0, batch = time.time(), 0
    base = tables.Data.base()
    own = os.path.join(ylib.REPO, "data/unicode/UnicodeData16.0.0.txt")
    jobs = [("own", own, os.path.join(ylib.SPEC, "unidata.json"), set(range(0x1100)), [])]
    while True:
        r = gen.Gen("%s-%d-%d" % (prop, seed, batch)).r
        made = [("arranged", *tables.arrange(scripts, base, r))] if batch == 0 else []
        made += [("changed%d" % i, *tables.perturb(base, r)) for i in range(3 if tier == "quick" else 6)]
        made += [("small%d" % i, *x) for i, x in enumerate(tables.small(base, r, 7 if tier == "quick" else 9))]
        for name, d, texts in made:
            f = os.path.join(OUT, "Y34-%s-%d.txt" % (name, os.getpid()))
            d.write(f, r)
            u = f[:-4] + ".json"
            json.dump(mkunidata.tables(open(f, "rb").read()), open(u, "w"), separators=(",", ":"))
            blocks = {c >> 8 for c in d.touched} | {r.randrange(0x1100) for _ in range(40)} | set(range(8))
            jobs.append((name, f, u, blocks, texts))
        with concurrent.futures.ThreadPoolExecutor(4) as pool:
            built = list(pool.map(with_tables, [x[1] for x in jobs]))
        def clean(kept=None):
            for exe, bad in built:
                if exe:
                    shutil.rmtree(os.path.dirname(exe), ignore_errors=True)
            for name, f, u, *_ in jobs:
                if name not in ("own", kept):
                    for x in (f, u):
                        if os.path.exists(x): os.remove(x)
        for (name, f, u, blocks, texts), (exe, bad) in zip(jobs, built):
            path = os.path.join(OUT, "%s-violation.json" % prop)
            if bad:
                json.dump({"property": prop, "validator": "Tables", "data": f, "reply": bad}, open(path, "w"))
                log("  unexplained: data file %s: %s" % (f, bad))
                violation(prop, path)
                clean(name)
                return 1
            S = tables.sessions(blocks, texts, r)
            log("  data file: %s" % name)
            rej, trace = run(t, exe, S, "Trace", (), "Y34", u)
            if rej:
                violation(prop, confirm(prop, exe, S, trace, rej, "Trace", (), u, {"data": f, "unidata": u}))
            os.remove(trace)
            if rej:
                clean(name)
                return 1
        clean()
        if time.time() - t0 >= budget:
            return 0
        batch += 1
        jobs = []


# --------------------------------------------------------------------------- main
def evidence(prop, tier, seed, t, wall, code):
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump({
            "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {"states": t.states, "transitions": t.transitions,
                         "traces_validated_against_impl": t.sessions,
                         "samples": t.samples, "calls_validated": t.calls,
                         "model_states": t.model_states, "model_cases_replayed": t.scripts,
                         "models": t.modules},
            "assumptions": ["the theorems are checked within the stated bounds",
                            "TLC, the driver and the compiler are trusted"],
            "wall_s": round(wall, 2), "violations": 1 if code == 1 else 0}, f, indent=1)


def replay(path):
    d = json.load(open(path))
    os.makedirs(OUT, exist_ok=True)
    if "data" in d:
        exe, bad = with_tables(d["data"])
        if bad:
            log(bad)
            return 1
    else:
        exe = ylib.build()
    if d["validator"] == "Pure":
        log("a history of executions; run the check again:", d["property"])
        return explain(d)
    t = Tally()
    rej, _ = run(t, exe, [d["session"]], d["validator"], d["options"], "replay", d.get("unidata"))
    for x in rej:
        log(json.dumps(x[2]))
    return 1 if rej else 0


def explain(d):
    log(json.dumps({k: d[k] for k in ("work", "reply", "expected_one_of")}))
    return 2


def main():
    a = sys.argv[1:]
    if a[:1] == ["--replay"]:
        return replay(a[1])
    if a[:1] == ["--setup"]:
        os.makedirs(OUT, exist_ok=True)
        ylib.build()
        t = Tally()
        model(t, "MC_Y02", 1)
        return 0
    prop = a[0]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    seed = int(a[a.index("--seed") + 1] if "--seed" in a else os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(OUT, exist_ok=True)
    t, t0 = Tally(), time.time()
    log("%s, %s tier, seed %d" % (prop, tier, seed))
    code = {"Y33": pure, "Y34": made_tables}.get(prop, explore)(prop, tier, seed, t)
    wall = time.time() - t0
    evidence(prop, tier, seed, t, wall, code)
    log("%s: %s, %.1fs" % (prop, "violated" if code else "held", wall))
    return code


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        log("BROKEN: %s" % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
