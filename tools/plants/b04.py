ID, PROP = "c04-later-note-sections", "C04"
NEEDS = "a file with another GNU note section (say, the build id) before the property note"
BREAKS = "only the first note section is looked at, so the declared instruction set is missed"
EDITS = [("lddtree.py", """                    if data != 0:
                        error_msg = "unknown x86_64 ISA"
                break
""", """                    if data != 0:
                        error_msg = "unknown x86_64 ISA"
                break
            # every GNU note of a file is in the one section
            if any(note["n_name"] == "GNU" for note in section.iter_notes()):
                break
""")]
DEMO = '''
from demolib import *
f = put("a.so", ext("a", notes=[note([], ntype=3, section=-1), note(8)]))
from auditwheel.lddtree import ldd
from auditwheel.architecture import Architecture
t = ldd(f, ldpaths={"conf": [], "env": [], "interp": []})
assert t.platform.extended_architecture == Architecture.x86_64_v4, t.platform
'''
