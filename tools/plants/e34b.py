ID, PROP = "c34-after-patching", "C34"
NEEDS = "--strip and a file that is patched"
BREAKS = "files are stripped after they were patched, which strip cannot always do"
EDITS = [("repair.py", """        patcher.apply_updates()

        if update_tags:""", """        if update_tags:"""), ("repair.py", """        # strip before applying ELF patches""", """        patcher.apply_updates()

        # strip before applying ELF patches""")]
DEMO = '''
from demolib import *
import auditwheel.repair as r
import auditwheel.patcher as p
done = []
real = p.check_call
r.check_call = lambda a, *k, **kw: done.append("strip " + str(a[-1]))
p.check_call = lambda a, *k, **kw: (done.append("patch " + str(a[-1])), real(a, *k, **kw))[1]
put("lib/liba.so.1", elf(soname="liba.so.1", needed=["libc.so.6"]))
w = wheel({"pkg/m.so": ext("m", needed=["libc.so.6", "liba.so.1"])})
assert main("repair", "--strip", "--ldpaths", D / "lib", "-w", D / "out", w) == 0
kinds = [d.split()[0] for d in done]
assert kinds.index("patch") > max(i for i, k in enumerate(kinds) if k == "strip"), done
'''
