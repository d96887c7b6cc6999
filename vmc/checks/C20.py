"""The filesystem wrappers: every operation history against one reference filesystem."""
import itertools
import os

from vmc.core import Unit, Violation
from vmc import fsutil
from vmc.memfs import MemFs
from wfa_planning_evaluation_framework.filesystem_wrappers.filesystem_pathlib_wrapper import FilesystemPathlibWrapper

ASSUMPTIONS = [
    "the cloud store is cloudpathlib's own local emulation of GCS (whole-file reads and writes, one writer)",
    "a cloud store has no empty directories: a directory is judged while it contains a file; one that lost its last file is not judged",
    "kinds of refusal are compared as: missing, already there, any other refusal",
]


def kind(e):
    if isinstance(e, FileNotFoundError):
        return "missing"
    if isinstance(e, FileExistsError):
        return "exists"
    return "refused"


def attempt(fn):
    try:
        return ("ok", fn())
    except Violation:
        raise
    except Exception as e:  # noqa
        return ("raised", kind(e))


TEXT = {0: "", 1: "one\n", 2: "zwei\nlines, \"quoted\"\n\ttab", 3: "\u00e9\u4e2d \u20ac"}

PATHS = ["a", "b.csv", "d/a", "d/e/c.csv"]
MUT = ([("write", p, t) for p in PATHS for t in (1, 2)]
       + [("openw", p, 1) for p in ("a", "d/a")] + [("append", p, 3) for p in ("a", "d/a")]
       + [("unlink", p, ok) for p in PATHS + ["d"] for ok in (False, True)]
       + [("mkdir", p, par, ok) for p in ("d", "d/e", "a") for par in (False, True) for ok in (False, True)])
# the cloud: no directories to create, every parent is implied
MUT_C = ([("write", p, t) for p in PATHS for t in (1, 2)]
         + [("openw", p, 1) for p in ("a", "d/a")] + [("append", p, 3) for p in ("a",)]
         + [("unlink", p, ok) for p in PATHS for ok in (False, True)]
         + [("mkdir", "d", True, True), ("mkdir", "d", False, False)])
PATTERNS = ["*", "*.csv", "a*", "?", "d", "[ab]*", "c", "*c*"]


def apply(fs, root, op):
    p = fs.joinpath(root, op[1])
    if op[0] == "write":
        return attempt(lambda: fs.write_text(p, TEXT[op[2]], encoding="utf-8") and None)
    if op[0] in ("openw", "append"):
        def w():
            with fs.open(p, "w" if op[0] == "openw" else "a", encoding="utf-8") as f:
                f.write(TEXT[op[2]])
        return attempt(w)
    if op[0] == "unlink":
        return attempt(lambda: fs.unlink(p, missing_ok=op[2]))
    return attempt(lambda: fs.mkdir(p, parents=op[2], exist_ok=op[3]))


def read(fs, p, mode="r"):
    def r():
        with (fs.open(p, mode, encoding="utf-8") if "b" not in mode else fs.open(p, mode)) as f:
            return f.read()
    return attempt(r)


def observe(ctx, fs, root, mem, mroot, what, judged_dirs=None):
    """Every query of the wrapper against the reference filesystem `mem`."""
    for p in PATHS + ["d", "d/e", "zz", "d/zz"]:
        if judged_dirs is not None and p in ("d", "d/e") and p not in judged_dirs:
            continue
        q, m = fs.joinpath(root, p), mem.joinpath(mroot, p)
        ctx.eq([bool(fs.exists(q)), bool(fs.is_file(q)), bool(fs.is_dir(q))], [mem.exists(m), mem.is_file(m), mem.is_dir(m)],
               f"{what}: exists/is_file/is_dir of {p}")
        if mem.is_dir(m):
            if judged_dirs is None:
                ctx.eq(read(fs, q)[0], "raised", f"{what}: opening directory {p}")
        else:
            want = read(mem, m)
            ctx.eq(read(fs, q), want, f"{what}: text of {p}")
            if want[0] == "ok":
                ctx.eq(read(fs, q, "rb"), ("ok", want[1].encode("utf-8")), f"{what}: bytes of {p}")
    for d in ("", "d", "d/e"):
        if judged_dirs is not None and d not in judged_dirs:
            continue
        q, m = (fs.joinpath(root, d), mem.joinpath(mroot, d)) if d else (root, mroot)
        if not mem.is_dir(m):
            continue
        for pat in PATTERNS:
            want = sorted(x[len(mroot) + 1:] for x in mem.glob(m, pat))
            got = list(fs.glob(q, pat))
            ctx.true(all(isinstance(g, str) for g in got), f"{what}: listing of {d or '.'} as strings")
            got = sorted(g[len(root) + 1:].rstrip("/") for g in got)
            if judged_dirs is not None:  # emptied prefixes are not judged
                got = [g for g in got if g not in ("d", "d/e") or g in judged_dirs]
            ctx.eq(got, want, f"{what}: listing of {d or '.'} with {pat}")


def cases_local(tier):
    for n in (1, 2):
        yield from itertools.product(MUT, repeat=n)
    small = [o for o in MUT if not (o[0] == "write" and o[2] == 2) and o[0] not in ("openw", "append")]
    if tier == "quick":
        small = [o for o in small if not (o[0] == "mkdir" and o[2] != o[3])]
    yield from itertools.product(small, repeat=3)
    if tier == "thorough":
        tiny = [o for o in small if o[1] in ("a", "d", "d/a")]
        yield from itertools.product(tiny, repeat=4)


def check_local(ctx, ops):
    with fsutil.scratch() as d:
        root = os.path.join(d, "R")
        os.mkdir(root)
        fs, mem = FilesystemPathlibWrapper(), MemFs(dirs={"/R"})
        for i, op in enumerate(ops):
            ctx.note(op)
            want = apply(mem, "/R", op)
            got = apply(fs, root, op)
            ctx.eq(got, want, f"{ops[:i + 1]}: outcome")
            ctx.state((str(sorted(mem.files.items())), str(sorted(mem.dirs))))
            files, dirs = fsutil.tree(root)
            ctx.eq(files, {k[3:]: v for k, v in mem.files.items()}, f"{ops[:i + 1]}: files on disk")
            ctx.eq(sorted(dirs), sorted(k[3:] for k in mem.dirs if k.startswith("/R/")), f"{ops[:i + 1]}: directories on disk")
        observe(ctx, fs, root, mem, "/R", f"{ops}")


class CloudModel(MemFs):
    """The reference filesystem with implied directories."""

    def _sync(self):
        self.dirs = {"/", "/R"}
        for p in self.files:
            self.dirs.update(self._parents(p))

    def _check_writable(self, p):
        self.dirs.update(self._parents(p))
        MemFs._check_writable(self, p)

    def mkdir(self, path, mode=0o777, parents=False, exist_ok=False):
        pass

    def write_text(self, *a, **k):
        MemFs.write_text(self, *a, **k)
        self._sync()

    def unlink(self, *a, **k):
        MemFs.unlink(self, *a, **k)
        self._sync()


def cases_cloud(tier):
    for n in (1, 2):
        yield from itertools.product(MUT_C, repeat=n)
    small = [o for o in MUT_C if o[0] in ("write", "unlink") and o[1] in ("a", "d/a") and not (o[0] == "write" and o[2] == 2 and o[1] == "d/a")]
    yield from itertools.product(small, repeat=3)
    if tier == "thorough":
        yield from itertools.product(MUT_C, repeat=3)


def check_cloud(ctx, ops):
    with fsutil.scratch() as d:
        os.makedirs(os.path.join(d, "buckets", "bkt", "R"))
        with fsutil.cloud(d) as fs:
            root = "gs://bkt/R"
            mem = CloudModel(dirs={"/R"})
            for i, op in enumerate(ops):
                ctx.note(op)
                want = apply(mem, "/R", op)
                mem._sync()
                got = apply(fs, root, op)
                ctx.eq(got, want, f"{ops[:i + 1]}: outcome")
                ctx.state(str(sorted(mem.files.items())))
                files, _ = fsutil.tree(os.path.join(d, "buckets", "bkt", "R"))
                ctx.eq(files, {k[3:]: v for k, v in mem.files.items()}, f"{ops[:i + 1]}: objects in the store")
                judged = {""} | {x[3:] for x in mem.dirs}
                observe(ctx, fs, root, mem, "/R", f"{ops[:i + 1]}", judged)


# ---- contents ---------------------------------------------------------------------------------
CHARS = ["", "a", "\n", "a\nb", "\n\n", "\t,;\"'", "\u00e9", "\u4e2d\u20ac", "\U0001f600", " lead", "trail ", "x" * 70000, "0\n" * 5000, "\x00\x01",
         "a\x0cb\n", "\x0b", "l\u2028m\u2029", "\x1c\x85\n", "\ufeffbom", "a\n\n\n", "x,\n" * 3]


def cases_text(tier):
    for a, b in itertools.product(range(len(CHARS)), repeat=2):
        yield (a, b)


def check_text(ctx, case):
    """A text written is read back exactly, and a later text replaces it entirely."""
    a, b = CHARS[case[0]], CHARS[case[1]]
    ctx.state(case)
    with fsutil.scratch() as d:
        os.makedirs(os.path.join(d, "buckets", "bkt", "R"))
        with fsutil.cloud(d) as cl:
            for fs, p in ((FilesystemPathlibWrapper(), os.path.join(d, "file")), (cl, "gs://bkt/R/file")):
                w = f"{type(fs).__name__} {a[:20]!r} then {b[:20]!r}"
                for enc in ("utf-8", "utf-16"):
                    for text in (a, b):
                        fs.write_text(p, text, encoding=enc)
                        with fs.open(p, encoding=enc) as f:
                            got = f.read()
                        ctx.true(got == text, f"{w}: written {text[:20]!r} in {enc}, read {got[:20]!r} ({len(got)} characters)")
                        with fs.open(p, mode="rb") as f:
                            got = f.read()
                        ctx.true(got == text.encode(enc), f"{w}: bytes in {enc}")
                for text in (a, b):
                    with fs.open(p, "wb") as f:
                        f.write(text.encode())
                    with fs.open(p, "rb") as f:
                        ctx.true(f.read() == text.encode(), f"{w}: bytes written and read")
                with fs.open(p, "w", encoding="utf-8") as f:
                    f.write(a)
                if b:
                    with fs.open(p, "a", encoding="utf-8") as f:
                        f.write(b)
                    with fs.open(p, "r", encoding="utf-8") as f:
                        ctx.true(f.read() == a + b, f"{w}: appended")
                with fs.open(p, "w", encoding="ascii", errors="replace") as f:
                    f.write(b)
                with fs.open(p, "rb") as f:
                    ctx.true(f.read() == b.encode("ascii", "replace"), f"{w}: encoding errors replaced")
                fs.write_text(p, b, encoding="ascii", errors="replace")
                with fs.open(p, "rb") as f:
                    ctx.true(f.read() == b.encode("ascii", "replace"), f"{w}: encoding errors replaced by write_text")
                if any(ord(c) > 127 for c in b):
                    ctx.raises(UnicodeEncodeError, lambda: fs.write_text(p, b, encoding="ascii"), f"{w}: not encodable")


# ---- names and patterns -----------------------------------------------------------------------
ODD = [".h", "a", "A", "b.csv", "B.CSV", "x y", "\u00e9.csv", "a#b", "a[b]", "-", "d/a", "d/.h", "d/b.csv", "D/a", "d/e/a", "a.d/b.csv"]
ODDPAT = ["*", "a", "A", "a*", "A*", "*.csv", "*.CSV", ".*", "[!a]*", "?", "*b*", "* *", "d", "[[]*", "a[[]b]", "-", "[a-b]*",
          "**/*", "**/a", "**/*.csv", "**/.*", "d/*", "*/a", "*/*.csv", "d/**/a", "**/e/*", "**/d/*", "*/*/*", "d/e/a", "**/**/a"]


def match(parts, pats):
    import fnmatch
    if not pats:
        return not parts
    if pats[0] == "**":
        return any(match(parts[i:], pats[1:]) for i in range(len(parts) + 1))
    return bool(parts) and fnmatch.fnmatchcase(parts[0], pats[0]) and match(parts[1:], pats[1:])


def cases_names(tier):
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        yield from itertools.combinations(range(len(ODD)), n)
    yield tuple(range(len(ODD)))


def check_names(ctx, case):
    """Listings with names and patterns of every kind."""
    names = [ODD[i] for i in case]
    have = set()
    for n in names:
        p = n.split("/")
        have.update("/".join(p[:k]) for k in range(1, len(p) + 1))
    with fsutil.scratch() as d:
        os.makedirs(os.path.join(d, "buckets", "bkt", "R"))
        os.mkdir(os.path.join(d, "R"))
        with fsutil.cloud(d) as cl:
            for fs, root in ((FilesystemPathlibWrapper(), os.path.join(d, "R")), (cl, "gs://bkt/R")):
                for n in names:
                    p = fs.joinpath(root, n)
                    fs.mkdir(fs.parent(p), parents=True, exist_ok=True)
                    fs.write_text(p, n)
                for pat in ODDPAT:
                    want = sorted(x for x in have if match(x.split("/"), pat.split("/")))
                    got = sorted(g[len(root) + 1:].rstrip("/") for g in fs.glob(root, pat))
                    ctx.eq(got, want, f"{type(fs).__name__}: files {names}, pattern {pat}")
                for n in names:
                    with fs.open(fs.joinpath(root, n)) as f:
                        ctx.eq(f.read(), n, f"{type(fs).__name__}: text of {n}")
                    fs.unlink(fs.joinpath(root, n))
                    ctx.true(not fs.exists(fs.joinpath(root, n)), f"{type(fs).__name__}: {n} removed")
    ctx.state(case)


# ---- paths ------------------------------------------------------------------------------------
PARTS = ["a", "b c", "d.csv", "e=1,f(2)", "..x", "\u00e9", "P=1,N=2", ".hidden", "x.tar.gz"]


def cases_paths(tier):
    for n in (1, 2, 3):
        yield from itertools.product(range(len(PARTS)), repeat=n)


def check_paths(ctx, case):
    parts = [PARTS[i] for i in case]
    ctx.state(case)
    with fsutil.scratch() as d, fsutil.cloud(d) as cl:
        for fs, root in ((FilesystemPathlibWrapper(), "/tmp/r"), (FilesystemPathlibWrapper(), "rel"), (cl, "gs://bkt"), (cl, "gs://bkt/r")):
            want = "/".join([root] + parts)
            ctx.eq(fs.joinpath(root, *parts), want, f"joinpath({root!r}, *{parts})")
            ctx.eq(fs.joinpath(root, "/".join(parts)), want, f"joinpath({root!r}, {'/'.join(parts)!r})")
            step = root
            for x in parts:
                up, step = step, fs.joinpath(step, x)
                ctx.eq([fs.name(step), fs.parent(step)], [x, up], f"name and parent of {step}")
                ctx.eq(fs.joinpath(fs.parent(step), fs.name(step)), step, f"{step} taken apart and joined")
            ctx.eq(step, want, f"joined one by one: {parts}")
            ctx.eq(fs.joinpath(want + "/", "z"), want + "/z", f"joinpath after a slash: {want}/")


def cases_short(tier):
    yield from itertools.product(("/", ".", ""), PARTS)


def check_short(ctx, case):
    """Names directly below the root and relative names on the local filesystem."""
    root, x = case
    fs = FilesystemPathlibWrapper()
    ctx.state(case)
    p = "/" + x if root == "/" else x
    ctx.eq(fs.name(p), x, f"name of {p}")
    ctx.eq(fs.parent(p), "/" if root == "/" else ".", f"parent of {p}")
    ctx.eq(fs.joinpath(root, x), p, f"joinpath({root!r}, {x!r})")
    ctx.eq(fs.joinpath(fs.parent(p), fs.name(p)), p, f"{p} taken apart and joined")
    ctx.eq(fs.joinpath(p), p, f"joinpath({p!r})")
    ctx.eq(fs.joinpath("rel", "/abs", x), "/abs/" + x, f"an absolute part starts over: {x}")


def cases_links(tier):
    for n in (1, 2):
        yield from itertools.product(("wa", "wl", "ul", "ua", "w2"), repeat=n)


def check_links(ctx, ops):
    """Links on the local filesystem: reads and writes go through, removal takes the link only."""
    with fsutil.scratch() as d:
        fs = FilesystemPathlibWrapper()
        a, l = os.path.join(d, "a"), os.path.join(d, "l")
        fs.write_text(a, "first")
        os.symlink(a, l)
        text, link = "first", True
        for op in ops:
            if op in ("wa", "w2"):
                text = op
                fs.write_text(a, op)
            elif op == "wl" and link:
                text = op
                fs.write_text(l, op)
            elif op == "ul":
                r = attempt(lambda: fs.unlink(l))
                ctx.eq(r, ("ok", None) if link else ("raised", "missing"), f"{ops}: removing the link")
                link = False
            elif op == "ua":
                r = attempt(lambda: fs.unlink(a))
                ctx.eq(r, ("ok", None) if text is not None else ("raised", "missing"), f"{ops}: removing the file")
                text = None
            ctx.state((ops, op))
            there = text is not None
            ctx.eq([fs.exists(a), fs.is_file(a), fs.exists(l), fs.is_file(l), os.path.islink(l)],
                   [there, there, there and link, there and link, link], f"{ops}: what exists")
            if there:
                with fs.open(a) as f:
                    ctx.eq(f.read(), text, f"{ops}: the file")


UNITS = [
    Unit("local", cases_local, check_local, "all histories of writes, removals and directory creation up to depth 3 (thorough: 4)", chunk=64),
    Unit("cloud", cases_cloud, check_cloud, "all histories on the emulated cloud store up to depth 3", chunk=16),
    Unit("text", cases_text, check_text, "all pairs of contents, encodings and modes", chunk=8),
    Unit("names", cases_names, check_names, "all pairs of names of every kind, listed with every kind of pattern", chunk=8),
    Unit("paths", cases_paths, check_paths, "all paths of up to three components", chunk=32),
    Unit("short", cases_short, check_short, "names directly below the root, relative names", chunk=16),
    Unit("links", cases_links, check_links, "links on the local filesystem", chunk=4),
]
