"""C27: scripts/compare_uncrustify.py on every pair of small configuration files over an alphabet of line forms, through
its function and through its command line, against a reference reading of the files."""
import concurrent.futures, itertools, locale, os
from check import REPO, JOBS
from pychecks.scratch import Scratch, run_script, tree, unprivileged, enough, confirmed

SCRIPT = os.path.join(REPO, "scripts/compare_uncrustify.py")
TEXT = None
UTF8 = locale.getpreferredencoding(False).lower().replace("-", "") == "utf8"   # what a Python script reads by default

# (line, setting it makes or None)
LINES = [
    ("a = 1", ("a", "1")), ("a = 2", ("a", "2")), ("b = 1", ("b", "1")), ("a=1", ("a", "1")), ("  a\t=   1  ", ("a", "1")), ("a = 1 # one", ("a", "1")),
    ("a = 1# one", ("a", "1")), ("", None), ("   \t", None), ("# a = 2", None), ("  # b", None), ("#", None), ("## a = 1 # b = 2", None),
    ("a = x=y", ("a", "x=y")), ("a = x = y # z=w", ("a", "x = y")), ("b = 1  2", ("b", "1  2")), ("a =", ("a", "")), ("a", ("a", "")), ("a # b = 1", ("a", "")),
    ("a = # 1", ("a", "")), ("A = 1", ("A", "1")), ("a_b = true", ("a_b", "true")), ("b = \"q\"", ("b", "\"q\"")), ("b\t=\t2", ("b", "2")), ("b==1", ("b", "=1")), ("a = 10", ("a", "10")), ("a = -1", ("a", "-1")),
    ("a = TRUE", ("a", "TRUE")), ("a = true", ("a", "true")), ("a = 01", ("a", "01")),
    # separators that are no line ends; a value that is written twice over
    ("a = 1 \f2", ("a", "1 \f2")), ("b = 1\v b = 2", ("b", "1\v b = 2")), ("a = x\x1cb = 3", ("a", "x\x1cb = 3")), ("b = 'a = 1'", ("b", "'a = 1'")),
    ("a = " + "long_" * 60, ("a", "long_" * 60)), ("a = " + "long_" * 59 + "lonG_", ("a", "long_" * 59 + "lonG_")),
] + ([("a = 1\u2028a = 2", ("a", "1\u2028a = 2")), ("b = \u00e9\x85b = 4", ("b", "\u00e9\x85b = 4")), ("\u00e4 = 1", ("\u00e4", "1")),
     # bytes that are no UTF-8, in a comment and in a value
     ("a = 1 # gr\udcfcn", ("a", "1")), ("b = gr\udcfc\udcdf", ("b", "gr\udcfc\udcdf"))] if UTF8 else [])


def reference(idx):
    r = {}
    for k in idx:
        if LINES[k][1]:
            r[LINES[k][1][0]] = LINES[k][1][1]
    return r


def expected(r1, r2):
    common = {k: v for k, v in r1.items() if k in r2 and r2[k] == v}
    diff = {k: (r1.get(k), r2.get(k)) for k in set(r1) | set(r2) if not (k in r1 and k in r2 and r1[k] == r2[k])}
    return common, diff


def name(idx):
    return "f" + "_".join(map(str, idx))


def write(base, idx, eol="\n", last=True):
    p = os.path.join(base, name(idx) + {"\n": "", "\r\n": "w"}[eol] + ("" if last else "n"))
    if not os.path.exists(p):
        with open(p, "w", newline="", encoding="utf-8", errors="surrogateescape") as f:
            f.write(eol.join(LINES[k][0] for k in idx) + (eol if last and idx else ""))
    return p


_fn = []


def function():
    if not _fn:
        g = {"__name__": "compare_uncrustify", "__file__": SCRIPT}
        exec(compile(TEXT, SCRIPT, "exec"), g)
        _fn.append(g.get("compare_config_files"))
    return _fn[0]


def by_function(p, q, r1, r2):
    f = function()
    if f is None:
        return None
    try:
        common, diff = f(p, q)
    except Exception as e:
        return "raises %s: %s" % (type(e).__name__, e)
    wc, wd = expected(r1, r2)
    if dict(common) != wc:
        return "common settings %s instead of %s" % (dict(common), wc)
    if {k: tuple(v) for k, v in dict(diff).items()} != wd:
        return "different settings %s instead of %s" % (dict(diff), wd)


def by_command(p, q, r1, r2, cwd):
    rc, text = run_script(SCRIPT, TEXT, [p, q], cwd)
    wc, wd = expected(r1, r2)
    if rc != 0:
        return "exit %s: %s" % (rc, text[-200:])
    lines = [l for l in text.split("\n")]
    if "Common Settings:" not in lines or "Different Settings:" not in lines:
        return "prints no report: %r" % text[:200]
    a, b = lines.index("Common Settings:"), lines.index("Different Settings:")
    first = [l.rstrip() for l in lines[a + 1:b] if l.strip()]
    second = [l.rstrip() for l in lines[b + 1:] if l.strip()]
    want = sorted(("%s = %s" % kv).rstrip() for kv in wc.items())
    if sorted(first) != want:
        return "prints common settings %s instead of %s" % (first, want)
    both = sorted(("%s: %s != %s" % (k, v[0], v[1])).rstrip() for k, v in wd.items() if None not in v)
    if [l for l in both if l not in second]:
        return "does not print the difference %r" % [l for l in both if l not in second][0]
    single = {k for k, v in wd.items() if None in v}
    extra = [l for l in second if l not in both and not any(l.startswith(k + ":") or l.startswith(k + " ") for k in single)]
    if extra or len(second) != len(set(second)) or len(second) > len(wd):
        return "prints the differences %s instead of %s" % (second, both)


def worker(job):
    base, lefts, rights, cmd = job
    unprivileged()
    found, n = [], 0
    for i in lefts:
        if enough(base):
            break
        p, r1 = write(base, i), reference(i)
        for j in rights:
            q, r2 = write(base, j), reference(j)
            for how in (("function", "command") if cmd(i, j) else ("function",)):
                test = (lambda: by_function(p, q, r1, r2)) if how == "function" else (lambda: by_command(p, q, r1, r2, base))
                n += 1
                m = test()
                if m and test():
                    confirmed(base)
                    found.append((how, "%r and %r: %s" % ([LINES[k][0] for k in i], [LINES[k][0] for k in j], m), (i, j)))
            if len(found) > 8:
                return found, n
    return found, n


def few(i, j):
    return len(i) + len(j) <= 2 or (len(i) == 2 and len(j) == 2 and (sum(i) * 7 + sum(j) * 3) % 61 == 0)


def setup(text):
    global TEXT
    TEXT = text


def run(ctx):
    text = open(SCRIPT).read()
    setup(text)
    files = [t for r in range(3) for t in itertools.product(range(len(LINES)), repeat=r)]
    three = [t for t in itertools.product(range(len(LINES)), repeat=3)]
    s = Scratch()
    try:
        jobs = [(s.dir, files[k::4 * JOBS], files, few) for k in range(4 * JOBS)]
        if ctx.thorough:
            jobs += [(s.dir, three[k::64], [f for f in files if len(f) < 2 or f[0] < 14], few) for k in range(64)]
        for f in files + (three if ctx.thorough else []):
            write(s.dir, f)
        keys = {}
        with concurrent.futures.ProcessPoolExecutor(JOBS, initializer=setup, initargs=(text,)) as ex:
            for found, n in ex.map(worker, jobs):
                ctx.count(transitions=n, traces=n)
                for k, m, c in found:
                    if k not in keys:
                        keys[k] = 1
                        ctx.add_violation(k, m, dict(kind="case", case=c))
        ctx.count(states=len(files) + (len(three) if ctx.thorough else 0))
        # the last line without a line end, carriage returns, three-line files against themselves, wrong usage
        def special():
            bad = []
            n = 0
            for f in files:
                if not f:
                    continue
                r = reference(f)
                for p in (write(s.dir, f, last=False), write(s.dir, f, eol="\r\n")):
                    n += 1
                    m = by_function(p, write(s.dir, f), r, r)
                    if m:
                        bad.append(("line ends", m))
            for f in three:
                n += 1
                p, r = write(s.dir, f), reference(f)
                m = by_function(p, p, r, r)
                if m:
                    bad.append(("itself", m))
            return bad, n
        # long files, and long lines in them: one setting differs, or is there once only
        def long_files():
            bad, n = [], 0
            for count in (500, 1100, 9000) + ((70000,) if ctx.thorough else ()):
                base_settings = {"setting_%d" % k: "value %d" % (k * 7) for k in range(count)}
                base_settings["wide"] = "w" * 100000
                for at in (0, count // 2, count - 1):
                    for what in ("differs", "missing", "same"):
                        other = dict(base_settings)
                        if what == "differs":
                            other["setting_%d" % at] = "another"
                        elif what == "missing":
                            del other["setting_%d" % at]
                        p, q = os.path.join(s.dir, "long1"), os.path.join(s.dir, "long2")
                        for f, r in ((p, base_settings), (q, other)):
                            with open(f, "w") as o:
                                for k, v in r.items():
                                    o.write("%s = %s%s\n" % (k, v, " # comment" if len(k) % 2 else ""))
                        n += 1
                        m = by_function(p, q, base_settings, other) or by_function(q, p, other, base_settings) or (by_command(p, q, base_settings, other, s.dir) if at == count - 1 or what == "differs" else None)
                        if m:
                            bad.append(("long", "files of %d settings of which number %d %s: %s" % (count, at, what, m if len(m) < 300 else m[:150] + " ... " + m[-150:])))
            return bad, n
        bad, n = special()
        more, k = long_files()
        bad, n = bad + more[:1], n + k
        ctx.count(transitions=n, traces=n)
        for k, m in bad[:3]:
            ctx.add_violation(k, m, dict(kind="case", case=k))
        ctx.extra["distinct_settings_maps"] = len({tuple(sorted(reference(f).items())) for f in files})
        for f in files[5::150]:
            ctx.sample(str([LINES[k][0] for k in f]))
    finally:
        s.remove()
