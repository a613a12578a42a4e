"""Packing and unpacking."""
import os
import stat
import time
import zipfile
from datetime import datetime, timezone
from pathlib import Path

from harness.common import set_listing
from symx.world import mode_of, set_mode, set_zip_attr, zip_attrs

BOUNDS = {
    "quick": "zip2dir: member attributes any 16-bit mode (2 members) or 0 (none recorded), directory members present or not; dir2zip: trees of "
             "any subset of 8 files in 5 directories (names that sort around dots, dashes and capitals, nested dist-info, two RECORD files), "
             "directories listed in order, backwards or rotated, file modes any 12-bit value (2 files), 6 times around 1980, 3 compression levels; round trip of the same; a wheel packed by the wheel context under 7 values of SOURCE_DATE_EPOCH, in 3 time zones",
    "thorough": "any subset of 11 files; modes of 3 files",
}
ASSUMPTIONS = ["zipfile (central directory, extraction)", "the file system keeps what is written"]
LABELS = {"unzip": ["permissions", "files", "directory mode"], "zip": ["order", "time", "members", "attributes", "same bytes again"],
          "round": ["same files", "same permissions"], "wheel": ["order", "time", "members", "level"]}
SAMPLE_P = 0.15

FILES = ["pkg/__init__.py", "pkg.libs/x.so", "pkg-1.0.dist-info/RECORD", "pkg-1.0.dist-info/WHEEL", "pkg-1.0.dist-info/entry_points.txt",
         "pkg/sub.dist-info/RECORD", "pkg/sub.dist-info/WHEEL", "A/RECORD", "pkg-1.0.dist-info/sub/RECORD", "zzz/a", "zz.dist-infox"]
TIMES = [(1979, 12, 31, 23, 59, 59), (1980, 1, 1, 0, 0, 0), (1970, 1, 1, 0, 0, 0), (2024, 2, 29, 12, 30, 58), (2107, 12, 31, 23, 59, 58),
         (1980, 1, 1, 0, 0, 2)]


def jobs(tier):
    q = tier == "quick"
    nf = 8 if q else 11
    return [("unzip", []), ("zip", [nf, 0]), ("zip", [nf - 3, 1]), ("round", [2 if q else 3]), ("wheel", [])]


def tree(sx, root, names):
    for f in names:
        p = os.path.join(root, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as h:
            h.write(f"content of {f}".encode() * 3)
        os.chmod(p, 0o644)


def run(sx, name, params):
    from auditwheel.tools import dir2zip, walk, zip2dir  # noqa: F401

    if name == "wheel":
        epoch(sx)
        return
    set_listing(sx.conc(sx.choice("listing", ["sorted", "reversed", "rotated"])) if name == "zip" and not params[1] else "reversed")
    if name == "unzip":
        z = os.path.join(sx.scratch, "in.zip")
        adir = sx.bool("dirs")
        with zipfile.ZipFile(z, "w") as h:
            if adir:
                zi = zipfile.ZipInfo("d/")
                zi.external_attr = (0o40700 << 16) | 0x10
                h.writestr(zi, b"")
            h.writestr(zipfile.ZipInfo("d/a.so"), b"aaa")
            h.writestr(zipfile.ZipInfo("d/b.py"), b"b")
        modes = {n: sx.int(f"mode_{n[2]}", 0, 0xFFFF) for n in ("d/a.so", "d/b.py")}
        low = sx.choice("low", [0, 1, 0x10, 0xFFFF])
        for n, m in modes.items():
            set_zip_attr(z, n, (m << 16) | sx.conc(low))
        out = Path(sx.sub("out"))
        zip2dir(Path(z), out)
        sx.check(sorted(os.path.relpath(os.path.join(d, f), out) for d, _, fs in os.walk(out) for f in fs) == ["d/a.so", "d/b.py"]
                 and (out / "d/a.so").read_bytes() == b"aaa" and (out / "d/b.py").read_bytes() == b"b", "files")
        plain = out / "plain"
        plain.write_bytes(b"")
        default = os.stat(plain).st_mode & 0o777
        for n, m in modes.items():
            got = mode_of(out / n)
            sx.observe(n, got)
            want = sx.If(m == 0, default, (m & 0o777) | 0o600)
            sx.check(got == want, "permissions", lambda n=n: f"{n}: {got}")
        if adir:
            sx.check(mode_of(out / "d") == 0o755, "directory mode")
        else:
            sx.reach("directory mode")
    elif name == "zip":
        nf, late = params
        root = sx.sub("tree")
        names = [f for f in FILES[:nf] if sx.bool("has_" + f)]
        tree(sx, root, names)
        m = {}
        for f in names[:2]:
            if late:
                m[f] = sx.int("mode_" + f, 0o400, 0o7777)
                sx.assume((m[f] & 0o400) == 0o400)
                set_mode(os.path.join(root, f), m[f])
        t = sx.conc(sx.choice("time", TIMES)) if late else TIMES[3]
        level = sx.conc(sx.choice("level", [-1, 0, 9])) if late else -1
        z = Path(sx.sub("o")) / "o.zip"
        dir2zip(Path(root), z, level, datetime(*t, tzinfo=timezone.utc))
        with zipfile.ZipFile(z) as h:
            infos = [(i.filename, i.date_time) for i in h.infolist()]
            ok = all(h.read(f) == open(os.path.join(root, f), "rb").read() for f in names)
        got = [n for n, _ in infos]
        files = [n for n in got if not n.endswith("/")]
        sx.observe("members", got)
        dirs = {os.path.dirname(f) for f in names}
        for d in list(dirs):
            while d:
                dirs.add(d)
                d = os.path.dirname(d)
        dirs = {d + "/" for d in dirs if d}
        sx.check(ok and sorted(files) == sorted(names) and sorted(got) == sorted(set(got)) and set(got) - set(files) == dirs, "members",
                 lambda: got)
        sx.check(got == expected_order(names), "order", lambda: f"{got} want {expected_order(names)}")
        sx.check(all(d == max(t, (1980, 1, 1, 0, 0, 0)) for _, d in infos), "time", lambda: infos)
        attrs = zip_attrs(z)
        sx.check(sx.And(*[(attrs[f] >> 16) & 0o7777 == (m[f] if f in m else 0o644) for f in names],
                        *[(attrs[f] >> 16) & 0o170000 == stat.S_IFREG for f in names]), "attributes", lambda: attrs)
        for f in m:
            sx.observe("attr_" + f, attrs[f] >> 16)
        if not late:
            set_listing("rotated")
            z2 = z.with_name("o2.zip")
            for f in names:
                os.utime(os.path.join(root, f), (1, 1))
            dir2zip(Path(root), z2, level, datetime(*t, tzinfo=timezone.utc))
            sx.check(z.read_bytes() == z2.read_bytes(), "same bytes again")
        else:
            sx.reach("same bytes again")
    else:
        root = sx.sub("tree")
        names = ["pkg/a.so", "pkg/b.py", "c", "pkg-1.0.dist-info/RECORD"]
        tree(sx, root, names)
        m = {}
        for f in names[:params[0]]:
            m[f] = sx.int("mode_" + f, 0o400, 0o7777)
            sx.assume((m[f] & 0o400) == 0o400)
            set_mode(os.path.join(root, f), m[f])
        z = Path(sx.sub("o")) / "o.zip"
        dir2zip(Path(root), z, 9, None)
        out = Path(sx.sub("out"))
        zip2dir(z, out)
        sx.check(all((out / f).read_bytes() == open(os.path.join(root, f), "rb").read() for f in names) and
                 sorted(os.path.relpath(os.path.join(d, f), out) for d, _, fs in os.walk(out) for f in fs) == sorted(names), "same files")
        for f in names:
            got = mode_of(out / f)
            sx.observe(f, got)
            want = ((m[f] if f in m else 0o644) & 0o777) | 0o600
            sx.check(got == want, "same permissions", lambda f=f, got=got: f"{f}: {got}")


def epoch(sx):
    """the wheel context: the time comes from the environment, in UTC wherever one is"""
    from auditwheel.wheeltools import InWheelCtx

    when = sx.conc(sx.choice("epoch", [None, "", "0", "315532799", "315532801", "1600000001", "1709209859", "4354819197"]))
    zone = sx.conc(sx.choice("zone", ["UTC0", "AAA-14", "BBB+12"]))
    level = sx.conc(sx.choice("level", [0, -1, 9]))
    base = Path(sx.scratch).resolve()
    src, out = base / "pkg-1.0-py3-none-any.whl", base / "out.whl"
    names = ["pkg/__init__.py", "pkg-1.0.dist-info/WHEEL", "pkg-1.0.dist-info/RECORD", "zz/a"]
    with zipfile.ZipFile(src, "w") as z:
        for f in names:
            z.writestr(zipfile.ZipInfo(f, (2020, 1, 1, 0, 0, 0)), b"x" * 5000)
    saved = {k: os.environ.get(k) for k in ("SOURCE_DATE_EPOCH", "TZ")}
    try:
        os.environ["TZ"] = zone
        time.tzset()
        os.environ.pop("SOURCE_DATE_EPOCH", None)
        if when is not None:
            os.environ["SOURCE_DATE_EPOCH"] = when
        with InWheelCtx(src) as ctx:
            ctx.out_wheel = out
            ctx.zip_compression_level = level
            (ctx.path / "pkg/new.txt").write_bytes(b"y" * 5000)
    finally:
        for k, v in saved.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
        time.tzset()
    names.append("pkg/new.txt")
    with zipfile.ZipFile(out) as h:
        infos = h.infolist()
        stored = all(i.compress_type == zipfile.ZIP_DEFLATED and (i.compress_size < i.file_size) == (level != 0) for i in infos if i.file_size > 4000)
    got = [i.filename for i in infos]
    sx.observe("members", got)
    sx.check(got == expected_order(names), "order", lambda: got)
    sx.check(sorted(n for n in got if not n.endswith("/")) == sorted(names), "members", lambda: got)
    sx.check(stored, "level")
    if when:
        t = max(315532800, int(when))
        d = datetime.fromtimestamp(t - t % 2, tz=timezone.utc)
        want = (d.year, d.month, d.day, d.hour, d.minute, d.second)
        sx.check(all(i.date_time == want for i in infos), "time", lambda: f"{[i.date_time for i in infos]} want {want}")
    else:
        sx.reach("time")


def expected_order(names):
    """directories before their contents; at the top .dist-info directories last;
    within a directory its files by name (RECORD of a top .dist-info last), then
    its subdirectories by name"""
    def level(prefix):
        here, subs = [], set()
        for n in names:
            if n.startswith(prefix):
                rest = n[len(prefix):]
                if "/" in rest:
                    subs.add(rest.split("/")[0])
                else:
                    here.append(rest)
        here.sort()
        if prefix.endswith(".dist-info/") and prefix.count("/") == 1 and "RECORD" in here:
            here.remove("RECORD")
            here.append("RECORD")
        out = [prefix + n for n in here]
        ds = sorted(subs)
        if not prefix:
            ds = [d for d in ds if not d.endswith(".dist-info")] + [d for d in ds if d.endswith(".dist-info")]
        for d in ds:
            out += [f"{prefix}{d}/", *level(f"{prefix}{d}/")]
        return out
    return level("")
