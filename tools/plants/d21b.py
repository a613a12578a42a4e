ID, PROP = "c02-merged-in-place", "C02"
NEEDS = "a wheel with two extensions needing different libraries, analysed twice"
BREAKS = "the references of all files are gathered in those of the first one, which are cached"
EDITS = [("wheel_abi.py", """        p.name: ExternalReference({}, {}, p) for p in policies
    }

    for fn in elftree_by_fn:
        update(external_refs, external_refs_by_fn[fn])
""", """        p.name: ExternalReference({}, {}, p) for p in policies
    }

    for i, fn in enumerate(elftree_by_fn):
        if i == 0:
            external_refs = dict(external_refs_by_fn[fn])
        else:
            update(external_refs, external_refs_by_fn[fn])
""")]
DEMO = '''
from demolib import *
w = wheel({"pkg/m.so": ext("m", needed=["libc.so.6", "liba.so.1"]), "pkg/n.so": ext("n", needed=["libc.so.6", "libb.so.1"])})
i = analyze(w)
assert set(i.full_external_refs[Path("pkg/m.so")]["manylinux_2_5_x86_64"].libs) == {"liba.so.1"}, i.full_external_refs
'''
