"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                  why_tests_cant=why, anchors={
        "files": ["src/auditwheel/" + f for f in files],
        "mechanism": [{"name": n, "where": "src/auditwheel/" + w} for n, w in mech]}))


p("C01", "Symbol versions bound the platform tag, soundly and maximally",
  "The policy derived from a set of versioned symbols is the highest-priority policy whose list for the "
  "architecture contains every required version of every symbol family that policy restricts; families no "
  "policy mentions restrict nothing, and when no policy qualifies the result is the plain linux policy.",
  ["inputs"], "every combination of versioned symbols (known, too new, PRIVATE, foreign), every glibc/musl architecture",
  "Tests check a few hand-picked symbol sets for x86_64; the 17 policies x 9 architectures x symbol combinations are not sampled.",
  ["policy/__init__.py"], [("versioned_symbols_policy", "policy/__init__.py")])
p("C02", "External references are the exact non-whitelisted dependency closure",
  "For every policy except linux, the external libraries reported for an ELF file are exactly the libraries reachable from it "
  "through DT_NEEDED links that never pass through a library the policy whitelists or a dynamic loader (ld-linux*, ld64.so.1/2), minus "
  "those that resolve to a file inside the wheel, each mapped to the file it resolved to (or to nothing if it was not found). "
  "The linux policy has no external libraries, and a library being whitelisted hides its own dependencies only where no other path reaches them.",
  ["inputs"], "every dependency graph shape (cycles, diamonds, missing libraries, in-wheel libraries) and whitelist membership within the bound",
  "Tests use two or three fixed trees; the closure must hold for every graph and every policy whitelist.",
  ["policy/__init__.py", "wheel_abi.py"], [("lddtree_external_references", "policy/__init__.py")])
p("C03", "Black-listed symbols exclude exactly the policies that forbid them",
  "A policy is excluded for an ELF file if and only if the file directly needs a library that policy black-lists and has a "
  "non-weak undefined symbol that is on the policy's list for that library; the black-listed library/symbol pairs of all examined "
  "files are reported per policy, and the blacklist constraint is the highest-priority policy with none.",
  ["inputs"], "every combination of needed libraries, symbols, bindings, definedness, and ELF files of one wheel",
  "Tests use one file with one symbol; interaction of weak/defined/undefined symbols, several files and several policies is not sampled.",
  ["policy/__init__.py", "elfutils.py", "wheel_abi.py"],
  [("filter_undefined_symbols", "elfutils.py"), ("update", "wheel_abi.py")])
p("C04", "Instruction-set requirements lower the tag",
  "If an audited ELF file of the wheel (a Python extension, or a file no ELF file of the wheel needs by name), or an external non-whitelisted library it pulls in, declares (GNU property note) that it needs an x86-64 ISA level "
  "above the wheel's architecture, the machine constraint is the plain linux policy, except that for an external library some policy "
  "whitelists it is the highest policy that does; without such a requirement, or with the ISA check disabled, there is no machine constraint.",
  ["inputs"], "every 32-bit ISA-needed value, note shape, library graph within the bound",
  "Tests mock four enumerated architectures; bit patterns, several notes, and mixes of internal and external libraries are not covered.",
  ["lddtree.py", "wheel_abi.py", "architecture.py"], [("_get_machine_policy", "wheel_abi.py"), ("_get_platform", "lddtree.py")])
p("C05", "The overall tag never exceeds any single constraint",
  "The overall platform tag of a wheel equals the lowest-priority one of its symbol, UCS2, PyFPE, blacklist and machine constraints; without "
  "permission to graft it is also no higher than the best policy needing no external library, and with a requested policy it is also no higher than the "
  "best policy grafting no more libraries than the requested one (for 'auto': than the policy that grafts fewest). The symbol constraint accounts for "
  "the versioned symbols of every library that would be grafted, the wheel's own, and no other, and the versioned symbols reported are those counted for a policy that attains it.",
  ["inputs"], "every mix of constraints over small wheels (ELF files, external libraries, symbols, flags)",
  "Tests fix one constraint at a time through mocks; the minimum over all combinations is never exercised.",
  ["wheel_abi.py"], [("analyze_wheel_abi", "wheel_abi.py"), ("get_symbol_policies", "wheel_abi.py")])
p("C06", "repair refuses a tag the wheel cannot honour",
  "A repair request for a policy above the wheel's symbol, UCS2, blacklist or machine constraint fails with an error and writes no "
  "wheel; a request at or below all of them does not fail for that reason. "
  "The output is tagged with the requested policy and its aliases and, unless only the requested platform is asked for, also with the higher policy the wheel qualifies for; 'auto' means the overall policy, or the lowest non-linux policy when the overall policy is linux.",
  ["inputs", "configurations"], "every requested policy (names, aliases, auto) x every constraint outcome x --only-plat",
  "Tests mock a single refusal; the order of policies, aliases and options multiplies to thousands of combinations.",
  ["main_repair.py"], [("execute", "main_repair.py")])
p("C07", "Tag rewriting keeps filename and metadata consistent",
  "After tag rewriting, the wheel filename's platform set is the old set minus the removed and plus the added platforms (never 'any' beside another), sorted, with every other filename part "
  "unchanged; the WHEEL metadata keeps every old tag not removed, gains every interpreter-ABI pair with every added platform, "
  "has no duplicates of them, and Root-Is-Purelib becomes False exactly when 'any' was dropped and the tags changed.",
  ["inputs"], "every set of old filename tags, WHEEL tags, added and removed platforms within the bound",
  "Tests cover two or three wheels; tag-set interactions (any, aliases, partially present tags) are combinatorial.",
  ["wheeltools.py", "policy/__init__.py"], [("add_platforms", "wheeltools.py"), ("get_replace_platforms", "policy/__init__.py")])
p("C08", "A repaired wheel is self-contained",
  "After a successful repair, every external library (for the target policy) of every ELF file in the wheel is present in the wheel's library directory under its new name, "
  "every DT_NEEDED entry that named it - in the wheel's own files and in the grafted copies - names the grafted copy and nothing else is renamed, and each file with "
  "such an entry has a run path that leads to that directory. A repair with an external library that was not found fails.",
  ["inputs"], "every dependency graph over the bound, whitelists, nested directories, symlinked sonames",
  "Integration tests repair a handful of fixed wheels; closure must hold for any graph, shared or nested dependencies.",
  ["repair.py", "patcher.py"], [("repair_wheel", "repair.py"), ("copylib", "repair.py")])
p("C09", "Grafted copies are content-addressed, writable, and leave the source alone",
  "A grafted copy is named <base>-<first 8 hex digits of the content's SHA-256>.<rest> (kept as is when already so named), has that name as its soname, is owner-writable, and keeps the other "
  "permission bits; the source file is not changed, and grafting the same file again reuses the copy.",
  ["inputs", "histories"], "every library name, mode and repetition within the bound",
  "Tests mock the file system and check one name; naming and idempotence must hold for every name and mode.",
  ["repair.py", "hashfile.py"], [("copylib", "repair.py")])
p("C10", "Run paths in a repaired wheel never leave the wheel",
  "When a run path is appended to a file, an existing entry is kept if and only if, with $ORIGIN, $LIB and $PLATFORM expanded (both spellings), it is an absolute path that lies inside the wheel; kept entries stay in order, "
  "duplicates are dropped, and the new entry is present.",
  ["inputs"], "every list of run-path entries over the component alphabet (.., prefixes of the wheel directory, tokens, empty)",
  "Tests try six strings; containment must hold for every combination of components.",
  ["repair.py", "tools.py"], [("append_rpath_within_wheel", "repair.py"), ("is_subdir", "tools.py")])
p("C11", "RECORD of an output wheel matches its contents",
  "After RECORD is rewritten it lists every file of the wheel tree exactly once with the file's SHA-256 (urlsafe base64, unpadded) and size, itself with neither, and nothing else; "
  "a RECORD.jws signature is gone.",
  ["inputs"], "every tree shape and every file name over the bound (commas, quotes, newlines, nested RECORD files)",
  "Tests compare one wheel; quoting and same-named files in other directories are not covered.",
  ["wheeltools.py", "tools.py"], [("rewrite_record", "wheeltools.py")])
p("C12", "Unpacking and repacking preserves the wheel, deterministically",
  "Packing a directory and unpacking the archive gives the same files with the same content, with permission bits preserved (owner read/write always set, directories 0755); the "
  "member order is by sorted name with the .dist-info directory last and its RECORD last of all, and every member carries the given time (SOURCE_DATE_EPOCH, in UTC), clipped to 1980-01-01, and is packed at the given compression level.",
  ["inputs"], "every tree over the bound, every mode, every timestamp",
  "Tests check one tree and a few modes/timestamps.",
  ["tools.py", "wheeltools.py"], [("walk", "tools.py"), ("zip2dir", "tools.py"), ("dir2zip", "tools.py")])
p("C13", "A failed repair leaves nothing behind",
  "If any step of a repair fails, no output wheel is created or overwritten, the input wheel is unchanged, the working directory is what it was, "
  "and the temporary unpack directory is removed.",
  ["crash_points", "fault_sequences"], "every single failing operation of a repair (tools, file operations) within the bound",
  "Tests never inject a failure in the middle of a repair.",
  ["repair.py", "wheeltools.py", "tmpdirs.py"], [("InWheel.__exit__", "wheeltools.py")])
p("C14", "Library lookup follows the dynamic loader's order and platform",
  "Each needed library resolves to the first directory, in the order (RPATH of the main file, the requesting file's own RPATH and RUNPATH, environment, RUNPATH of the main file, configured directories), "
  "that holds an ELF file of that name whose class, endianness, machine and OS ABI are compatible; RPATH is ignored where RUNPATH is present, "
  "an incompatible candidate is passed over, and a library with no candidate is reported as not found.",
  ["inputs"], "every placement of candidates over the search directories, compatibility, RPATH/RUNPATH presence",
  "Tests have a single tree; the search order over all placements is not covered.",
  ["lddtree.py"], [("ldd", "lddtree.py"), ("find_lib", "lddtree.py")])
p("C15", "Search path strings and configuration files are parsed as the loader does",
  "A colon-separated path list yields its existing directories in order without duplicates, with empty entries meaning the current directory and $ORIGIN or ${ORIGIN} meaning the directory of the file; "
  "a loader configuration file yields its directories in order without duplicates, ignoring comments, blank lines and missing directories and following include patterns.",
  ["inputs"], "every string over the alphabet of path components, separators and tokens within the bound",
  "Tests use three strings.",
  ["lddtree.py"], [("parse_ld_paths", "lddtree.py"), ("parse_ld_so_conf", "lddtree.py")])
p("C16", "Architecture and libc are read from the filename only when unambiguous",
  "From a wheel filename, an architecture is deduced exactly when every platform tag ends in a known architecture and all have the same baseline; a libc exactly when precisely one of the "
  "manylinux/musllinux/android families occurs; a pure wheel and an ambiguous wheel are told apart and both rejected.",
  ["inputs"], "every set of up to three platform tags over all families and architectures",
  "Tests list a dozen filenames.",
  ["wheeltools.py", "architecture.py"], [("get_wheel_architecture", "wheeltools.py"), ("get_wheel_libc", "wheeltools.py")])
p("C17", "Policy data is loaded faithfully and validated",
  "Policy data in which a newer policy lacks a library, or a symbol version of a family both restrict, that an older (higher-priority) one has, for any architecture, is rejected, and any other data is accepted; for an accepted file the policies "
  "offered for an architecture are exactly linux and those with symbol versions for it, in priority order, and are found by name and by every alias.",
  ["inputs"], "every small policy file (three policies, two architectures, libraries, versions) within the bound; every architecture of the shipped files",
  "Tests validate the shipped file and two broken ones.",
  ["policy/__init__.py"], [("WheelPolicies", "policy/__init__.py"), ("_validate_pep600_compliance", "policy/__init__.py")])
p("C18", "Android wheels keep their tag and follow their API level",
  "For an Android wheel the policy used is that of the highest listed API level not above the wheel's own, renamed to the wheel's tag; a wheel below every listed level, or with other than exactly one platform tag, is rejected. "
  "Run paths are written as RUNPATH and refused below API level 24, and libpython dependencies are not treated as external.",
  ["inputs"], "every API level and tag set within the bound",
  "Tests use four API levels.",
  ["policy/__init__.py", "patcher.py"], [("WheelPolicies", "policy/__init__.py"), ("set_rpath", "patcher.py")])
p("C19", "Batched ELF edits equal the edits applied one by one",
  "The combined external patch command per file has the effect of the requested soname, needed-removal, needed-replacement and run-path edits of that file, each requested edit exactly once, each file patched at most once per flush, "
  "nothing pending afterwards; a run path read back before the flush shows the pending change, conflicting removal/replacement of one library is refused, and a file moved in between keeps its edits.",
  ["histories"], "every sequence of up to four edit operations over two files",
  "Tests call each operation alone with a mocked patchelf.",
  ["patcher.py"], [("ElfPatcher", "patcher.py")])
p("C20", "Excluded libraries are never resolved, required, or grafted",
  "A library whose needed name, or whose resolved file, matches an exclude pattern is absent from the needed list and the tree, from every policy's external references, and is neither grafted nor renamed, while "
  "every other library is treated as if no exclusion were given, except for those reachable only through an excluded one.",
  ["inputs"], "every graph over the bound, every subset of exclude patterns (names, globs, paths)",
  "Tests exclude one direct dependency.",
  ["lddtree.py"], [("ldd", "lddtree.py")])
p("C21", "Analyses are repeatable and independent",
  "Analysing a wheel gives the same result whatever was analysed before in the same process, with whatever options, and analysing again with the same arguments gives an equal result.",
  ["histories"], "every pair/triple of analyses over wheels and options within the bound",
  "Tests analyse each wheel once per process state; caches shared between calls are not exercised.",
  ["wheel_abi.py", "lddtree.py"], [("get_wheel_elfdata", "wheel_abi.py"), ("load_ld_paths", "lddtree.py")])
p("C22", "Wheels with nothing valid to repair are told apart and rejected",
  "A wheel without any ELF file of its architecture is rejected as not a platform wheel (naming the ELF files of other architectures it contains), a wheel with a shared library in purelib is rejected, ELF files of another architecture or libc "
  "do not influence the result, and a pure-Python wheel is accepted unchanged exactly when it is allowed, being copied as is by repair.",
  ["inputs", "configurations"], "every mix of ELF files (architecture, libc, location) and option",
  "Tests have one wheel per case.",
  ["wheel_abi.py", "main_repair.py", "main_show.py"], [("get_wheel_elfdata", "wheel_abi.py")])
p("C23", "Command line overrides environment overrides default",
  "Each option with an environment variable takes the command-line value if given, else the environment value if non-empty, else the default; an environment value of the wrong type or outside the choices is an error, "
  "whether or not the command line sets the option.",
  ["inputs", "configurations"], "every combination of argument, environment value, type and choices",
  "Tests cover a few combinations of one option.",
  ["tools.py"], [("EnvironmentDefault", "tools.py")])
p("C24", "The SBOM names exactly the providers of what was grafted",
  "The SBOM lists the wheel (name, version and purl from its filename) and one component per grafted file a system package provides, each with that package's name, version and purl and a distinct reference, all of them dependencies of the wheel; "
  "when no grafted file has a provider there is no SBOM, and in a repaired wheel it lies in the .dist-info directory and in RECORD.",
  ["inputs"], "every subset of files and providers within the bound",
  "Tests use one fixed provider.",
  ["sboms.py", "repair.py"], [("create_sbom_for_wheel", "sboms.py")])
p("C26", "ELF files are classified by what they export and import",
  "A file is a Python extension exactly when it defines a function named init<mod>, PyInit_<mod> or _cffi_pypyinit_<mod> for its own module name; UCS2 use is an undefined function symbol containing PyUnicodeUCS2_, PyFPE use is an "
  "undefined PyFPE_jbuf/PyFPE_dummy/PyFPE_counter, and versioned requirements are every version of every non-loader library in the version-needs section. UCS2 and PyFPE matter only in Python extensions (UCS2 only in Python 2 ones) and force the linux policy.",
  ["inputs"], "every symbol table up to the bound over names, sections, types, bindings",
  "Tests mock one symbol at a time.",
  ["elfutils.py", "wheel_abi.py"], [("elf_is_python_extension", "elfutils.py"), ("elf_find_versioned_symbols", "elfutils.py")])
p("C27", "ELF programs in scripts keep working after repair",
  "An ELF file directly in <name>.data/scripts that needs a grafted library is moved into the platlib directory <name>.scripts and replaced by a Python shim of the same mode (as unpacked) that executes the moved file; its run path leads from the new "
  "place to the library directory, its pending edits (including the removal of libpython, for which alone a file may be moved too) apply to the moved file, and no other file is replaced.",
  ["inputs"], "every placement of the file in the tree, name and mode within the bound",
  "One integration test repairs one such wheel.",
  ["repair.py"], [("_replace_elf_script_with_shim", "repair.py"), ("_path_is_script", "repair.py")])
p("C28", "The libc of a file is detected from its dependencies, consistently",
  "A file needing libc.musl-*/ld-musl-* is musl, one needing libc.so.6, ld-linux-* or ld64.so.* is glibc, one with a program interpreter has the interpreter's libc (ld-musl-*: musl, otherwise glibc), two of these in conflict are an error, and a file telling neither way has the libc its extension suffix tells "
  "(musl suffixes; gnu suffixes only for CPython 3.11+), or none.",
  ["inputs"], "every needed list up to the bound and every suffix form",
  "Tests use four combinations.",
  ["lddtree.py"], [("ldd", "lddtree.py")])
p("C29", "show reports exactly the analysis",
  "The JSON report carries the analysed tag, symbol tag, flags, versioned symbols and, for exactly the policies above the overall one, the libraries and black-listed symbols to eliminate; the text report names the same overall tag, and "
  "exit status 0 is given for every analysable wheel.",
  ["inputs"], "every analysis outcome over the bound",
  "Tests compare two fixed reports.",
  ["main_show.py", "json.py"], [("execute", "main_show.py")])
p("C30", "Wheel-internal libraries needed by others inherit their resolution",
  "A non-extension ELF file of the wheel with unresolved dependencies that is itself loaded by a fully resolved ELF file gets these dependencies (and theirs) as that file resolves them; fully resolved files, Python extensions, and files nothing loads "
  "are left as they were, and such a file needed by another ELF of the wheel does not itself add constraints beyond what it makes the wheel graft.",
  ["inputs"], "every graph of three ELF files and two external libraries over the bound",
  "Tests have one wheel with one such library.",
  ["wheel_abi.py"], [("_fixup_elf_trees", "wheel_abi.py")])
p("C31", "A repaired wheel qualifies for the tags it carries, and repairing it again changes nothing",
  "Analysing the wheel a repair wrote (without any library directory, and with the same exclusions) finds no external library for any policy whose tag it carries - libpython included, which no file of it, own or grafted, needs any more unless excluded - and "
  "an overall tag at least as high as each of them, grafting not allowed (PyFPE use aside, for which repair does not refuse); the same repair of it again gives a wheel of the same name and content.",
  ["inputs", "histories"], "every dependency graph, symbol-version need, exclusion and request over the bound",
  "Integration tests run show on a handful of repaired wheels; whatever was repaired has to qualify.",
  ["repair.py", "wheel_abi.py", "main_repair.py", "policy/__init__.py"], [("repair_wheel", "repair.py"), ("analyze_wheel_abi", "wheel_abi.py"), ("execute", "main_repair.py")])
p("C32", "Repair leaves everything else as it was",
  "Every file of the wheel comes out of a repair with its mode (owner read and write always set) and its content, except WHEEL, RECORD (and RECORD.jws, which is dropped) and the ELF files with an external library, which keep their own soname, the order and "
  "the rest of what they need, and (when stripping) ELF files; nothing is added but grafted copies, moved programs and the SBOM; WHEEL changes in tags and Root-Is-Purelib only, and not at all with --no-update-tags; the input wheel, the source libraries and "
  "other files of the output directory stay as they are.",
  ["inputs"], "every mode, dependency of the ELF files and option over the bound",
  "Tests look at names and tags of the output, not at the files that should not change.",
  ["repair.py", "wheeltools.py", "tools.py"], [("repair_wheel", "repair.py"), ("InWheel", "wheeltools.py"), ("dir2zip", "tools.py")])
p("C33", "lddtree prints the resolved tree",
  "The lddtree command exits 0 for an ELF file and prints (unless messages are turned off) one JSON document with the file's place, interpreter, run paths and needed list in order, and for each library reachable from it (through libraries that were found) its needed "
  "list and the file it resolved to, null if not found, using the directories given in place of the default ones and those of AUDITWHEEL_LD_LIBRARY_PATH.",
  ["inputs"], "every dependency graph over the bound, run path kinds, options",
  "One test runs it on one file and looks for two names.",
  ["main_lddtree.py", "main.py", "json.py", "lddtree.py"], [("execute", "main_lddtree.py"), ("main", "main.py"), ("dumps", "json.py"), ("ldd", "lddtree.py")])
p("C34", "Stripping covers exactly what is repaired",
  "With --strip, each ELF file of the wheel (of its architecture, at the place it has in the output) and each grafted copy is stripped exactly once, before it is patched, and nothing else is; without it nothing is stripped.",
  ["inputs"], "every dependency graph over the bound, moved programs, library directories",
  "Tests check that some file got smaller.",
  ["repair.py"], [("strip_symbols", "repair.py"), ("repair_wheel", "repair.py")])

p("C35", "The same input gives the same output",
  "With SOURCE_DATE_EPOCH set, what repair writes - the wheel's name, its members in order, their modes, times and content (tags and SBOM included) - and what show prints, as text and as JSON, are the same in every process: they do not depend on the hash seed "
  "(the order in which sets are gone through) or on the order in which the file system lists directories.",
  ["schedules", "inputs"], "every order of the libraries' names in sets, directory order, dependency graph and package owner over the bound",
  "Tests run with one hash seed and see one order.",
  ["repair.py", "sboms.py", "main_show.py", "wheeltools.py", "tools.py", "policy/__init__.py"], [("repair_wheel", "repair.py"), ("create_sbom_for_wheel", "sboms.py"), ("execute", "main_show.py"), ("lddtree_external_references", "policy/__init__.py"), ("walk", "tools.py")])

NA = {}
TECH = ("symbolic execution of the auditwheel source (AST-instrumented from /repo each run) with Z3 deciding every "
        "branch and assertion; counterexamples replayed on the untransformed code")
NOTE = ("All inputs within the stated bounds (evidence: bounds, paths, queries, functions). Trusted: CPython and its "
        "standard library, Z3, the pyelftools/patchelf stand-ins (validated by running sampled paths against the real "
        "ones), the path-forking engine in symx/.")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for d in P:
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for d in P:
        i = d["id"]
        if os.path.exists(os.path.join(ROOT, "harness", i.lower() + ".py")):
            checks.append({"property": i, "quick_cmd": f"python3 run.py {i}",
                           "thorough_cmd": f"python3 run.py {i} --thorough",
                           "evidence_file": f"evidence/{i}.json", "technique": TECH,
                           "level": "model_checking", "level_note": NOTE})
        else:
            na.append({"property": i, "reason": NA.get(i, "no check built yet")})
    m = {"version": 1, "setup_cmd": "python3 -c pass", "checks": checks, "not_applicable": na}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
