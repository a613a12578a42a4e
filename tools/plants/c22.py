ID, PROP = "c22-foreign-symbols", "C22"
NEEDS = "a glibc wheel that also contains a musl file that needs a versioned symbol"
BREAKS = "the symbol versions of files of another libc count"
EDITS = [("wheel_abi.py", """                if elftree.libc is not None:
                    if libc is None:
""", """                file_symbols = set(elf_find_versioned_symbols(elf))
                for key, value in file_symbols:
                    log.debug("key %s, value %s", key, value)
                    versioned_symbols[key].add(value)

                if elftree.libc is not None:
                    if libc is None:
"""), ("wheel_abi.py", """                for key, value in elf_find_versioned_symbols(elf):
                    log.debug("key %s, value %s", key, value)
                    versioned_symbols[key].add(value)

                is_py_ext""", "                is_py_ext")]
DEMO = '''
from demolib import *
w = wheel({"pkg/m.so": ext("m"), "pkg/x.so": elf(needed=["libc.musl-x86_64.so.1", "libz.so.1"], verneed=[("libz.so.1", ["ZLIB_9.9"])])})
i = analyze(w)
assert not i.versioned_symbols, i.versioned_symbols
'''
