"""RECORD."""
import base64
import csv
import hashlib
import io
import os
from pathlib import Path

BOUNDS = {
    "quick": "any subset of 8 files (names with comma, quote, blank, non-ASCII, dots, nested .dist-info and RECORD, look-alikes of RECORD) and of 8 more "
             "(quote first or last, line break, comma, blank first or last), "
             "stale or no RECORD, signed or not, contents of 2 files out of 4 (empty, binary with CR/LF, 70 kB); "
             "as a function and through the wheel context with an output wheel",
    "thorough": "any subset of 12 and of 11 files",
}
ASSUMPTIONS = ["hashlib, csv", "the file system keeps what is written"]
LABELS = {"rec": ["every file once", "hash and size", "own entry", "signature gone", "nothing else changed"],
          "wheel": ["every file once", "hash and size", "own entry", "signature gone", "archive has RECORD of its content"]}
SAMPLE_P = 0.1
DI = "pkg-1.0.dist-info"
ODD = ["pkg/a.so", '"q" x.py', "pkg/new\nline.txt", 'pkg/"', "pkg/a,b", " lead", "pkg/tail ", "pkg/'s", "pkg/#x", "pkg/back\\slash", "pkg/日本.so"]
FILES = ["pkg/a.so", "pkg/we,ird \"q\".py", f"{DI}/WHEEL", f"{DI}/RECORD.p7s", f"{DI}/sub/RECORD", "pkg/ünï.txt", "RECORD",
         "pkg/RECORD", "pkg.libs/libz-1234.so.1", f"{DI}/licenses/x/y/LICENSE", "-x", "pkg-1.0.data/scripts/x"]
BODIES = [b"", b"a\r\nb\n\x00\xff", b"x" * 70000, b"\n"]


def jobs(tier):
    n = 8 if tier == "quick" else 12
    return [("rec", [n, "places"]), ("rec", [n, "odd"]), ("wheel", [5, "places"]), ("wheel", [5, "odd"])]


def run(sx, name, params):
    from auditwheel.wheeltools import InWheelCtx, rewrite_record

    n, which = params
    files = FILES if which == "places" else ODD
    names = [f for f in files[:n] if sx.bool("has_" + f)]
    stale = sx.bool("stale")
    signed = sx.bool("signed")
    body = sx.conc(sx.choice("body", BODIES)) if n <= 5 or (names and names[0] == files[0]) else b"z"
    root = sx.sub("w")
    content = {f: (body if i == 0 else f"content of {f}\n".encode()) for i, f in enumerate(names)}
    if stale:
        content[f"{DI}/RECORD"] = b"gone.py,sha256=xxx,3\r\n" * 400
    if signed:
        content[f"{DI}/RECORD.jws"] = b"sig"
    os.makedirs(os.path.join(root, DI))
    for f, c in content.items():
        p = os.path.join(root, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as h:
            h.write(c)
    content.pop(f"{DI}/RECORD", None)
    content.pop(f"{DI}/RECORD.jws", None)
    if name == "rec":
        rewrite_record(Path(root))
        out = {os.path.relpath(os.path.join(d, f), root): open(os.path.join(d, f), "rb").read()
               for d, _, fs in os.walk(root) for f in fs}
    else:
        import zipfile
        src = os.path.join(sx.sub("in"), "pkg-1.0-py3-none-any.whl")
        with zipfile.ZipFile(src, "w") as z:
            for d, _, fs in os.walk(root):
                for f in fs:
                    z.write(os.path.join(d, f), os.path.relpath(os.path.join(d, f), root))
            if not stale and not signed and not any(f.startswith(DI) for f in content):
                z.writestr(f"{DI}/keep", b"")
                content[f"{DI}/keep"] = b""
        o = os.path.join(sx.sub("out"), "pkg-1.0-py3-none-any.whl")
        with InWheelCtx(Path(src)) as ctx:
            ctx.out_wheel = Path(o)
            (ctx.path / "added.txt").write_bytes(body + b"!")
        content["added.txt"] = body + b"!"
        with zipfile.ZipFile(o) as z:
            out = {i: z.read(i) for i in z.namelist() if not i.endswith("/")}
    rec = out.pop(f"{DI}/RECORD", b"").decode("utf-8")
    rows = list(csv.reader(io.StringIO(rec, newline="")))
    sx.observe("rows", sorted(map(list, rows)))
    sx.check(f"{DI}/RECORD.jws" not in out, "signature gone")
    sx.check(sorted(r[0] for r in rows) == sorted([*content, f"{DI}/RECORD"]), "every file once", lambda: rows)

    def h(c):
        return "sha256=" + base64.urlsafe_b64encode(hashlib.sha256(c).digest()).rstrip(b"=").decode()

    sx.check(all(len(r) == 3 and r[1:] == [h(content[r[0]]), str(len(content[r[0]]))]
                 for r in rows if r and r[0] in content), "hash and size", lambda: rows)
    sx.check([r[1:] for r in rows if r and r[0] == f"{DI}/RECORD"] == [["", ""]], "own entry", lambda: rows)
    sx.check(out == content, "archive has RECORD of its content" if name == "wheel" else "nothing else changed",
             lambda: sorted(set(out) ^ set(content)))
