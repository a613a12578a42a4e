ID, PROP = "c18-libpython-internal", "C18"
NEEDS = "an Android wheel one of whose external libraries needs libpython"
BREAKS = "libpython is external when an external library needs it"
EDITS = [("policy/__init__.py", """                if self.libc == Libc.ANDROID and LIBPYTHON_RE.match(lib):
                    # libpython dependencies are normal on Android.
                    continue
                if lib""", """                if self.libc == Libc.ANDROID and lib in lddtree.needed and LIBPYTHON_RE.match(lib):
                    # libpython dependencies of an extension are normal on Android.
                    continue
                if lib""")]
DEMO = '''
from demolib import *
put("lib/liba.so", elf("aarch64", soname="liba.so", needed=["libpython3.13.so"]))
w = wheel({"pkg/m.so": ext("m", arch="aarch64", needed=["libc.so", "liba.so"])}, fn="pkg-1.0-cp313-cp313-android_24_arm64_v8a.whl")
i = analyze(w, libc="ANDROID", arch="aarch64", ldpaths=D / "lib")
assert all("libpython3.13.so" not in e.libs for e in i.external_refs.values()), i.external_refs
'''
