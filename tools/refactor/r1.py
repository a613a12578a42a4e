"""Behaviour-preserving edits: helpers extracted, loops rewritten, statements reordered."""
EDITS = [
# policy
("policy/__init__.py", """        required_vers: dict[str, set[str]] = {}
        for symbols in versioned_symbols.values():
            for symbol in symbols:
                sym_name, _, _ = symbol.partition("_")
                required_vers.setdefault(sym_name, set()).add(symbol)
        for p in self._policies[::-1]:
            policy_sym_vers = {
                sym_name: {sym_name + "_" + version for version in versions}
                for sym_name, versions in p.symbol_versions.items()
            }
            if policy_is_satisfied(p.name, policy_sym_vers):
                return p
""", """        required_vers: dict[str, set[str]] = defaultdict(set)
        all_symbols = {s for symbols in versioned_symbols.values() for s in symbols}
        for symbol in sorted(all_symbols):
            required_vers[symbol.split("_", 1)[0]].add(symbol)
        for p in reversed(self._policies):
            policy_sym_vers: dict[str, set[str]] = {}
            for sym_name, versions in p.symbol_versions.items():
                policy_sym_vers[sym_name] = {f"{sym_name}_{version}" for version in versions}
            if policy_is_satisfied(p.name, policy_sym_vers):
                return p
"""),
("policy/__init__.py", """            policy_satisfied = True
            for name in set(required_vers) & set(policy_sym_vers):
                if not required_vers[name].issubset(policy_sym_vers[name]):
                    for symbol in required_vers[name] - policy_sym_vers[name]:
                        logger.debug(
                            "Package requires %s, incompatible with policy %s which requires %s",
                            symbol,
                            policy_name,
                            policy_sym_vers[name],
                        )
                    policy_satisfied = False
            return policy_satisfied
""", """            for name, required in required_vers.items():
                allowed = policy_sym_vers.get(name)
                if allowed is None:
                    continue
                missing = required.difference(allowed)
                if missing:
                    logger.debug(
                        "Package requires %s, incompatible with policy %s which requires %s",
                        ", ".join(sorted(missing)),
                        policy_name,
                        allowed,
                    )
                    return False
            return True
"""),
("policy/__init__.py", """            libs = libs.copy()
            reqs = set()
            while libs:
                lib = libs.pop()
                reqs.add(lib)
                for dep in filter_libs(lddtree.libraries[lib].needed, whitelist):
                    if dep not in reqs:
                        libs.add(dep)
            return reqs
""", """            reqs: set[str] = set()

            def visit(lib: str) -> None:
                if lib in reqs:
                    return
                reqs.add(lib)
                for dep in filter_libs(lddtree.libraries[lib].needed, whitelist):
                    visit(dep)

            for lib in sorted(libs):
                visit(lib)
            return reqs
"""),
("policy/__init__.py", """            for lib in libs:
                if "ld-linux" in lib or lib in ["ld64.so.2", "ld64.so.1"]:
                    # always exclude ELF dynamic linker/loader
                    # 'ld64.so.2' on s390x
                    # 'ld64.so.1' on ppc64le
                    # 'ld-linux*' on other platforms
                    continue
                if self.libc == Libc.ANDROID and LIBPYTHON_RE.match(lib):
                    # libpython dependencies are normal on Android.
                    continue
                if lib in whitelist:
                    # exclude any libs in the whitelist
                    continue
                yield lib
""", """            android = self.libc is Libc.ANDROID

            def skipped(lib: str) -> bool:
                if lib in whitelist:
                    return True
                if lib.find("ld-linux") >= 0 or lib in ("ld64.so.1", "ld64.so.2"):
                    return True
                return android and LIBPYTHON_RE.match(lib) is not None

            yield from (lib for lib in libs if not skipped(lib))
"""),
("policy/__init__.py", """        matches = [p for p in self._policies if p.name == name or name in p.aliases]
        if len(matches) == 0:
            msg = f"no policy named {name!r} found"
            raise LookupError(msg)
        if len(matches) > 1:
            msg = "Internal error. Policies should be unique"
            raise RuntimeError(msg)
        return matches[0]
""", """        found: Policy | None = None
        for p in self._policies:
            if name not in (p.name, *p.aliases):
                continue
            if found is not None:
                msg = "Internal error. Policies should be unique"
                raise RuntimeError(msg)
            found = p
        if found is None:
            msg = f"no policy named {name!r} found"
            raise LookupError(msg)
        return found
"""),
("policy/__init__.py", """            for lib in needed_external_libs:
                if is_subdir(lddtree.libraries[lib].realpath, wheel_path):
                    # we didn't filter libs that resolved via RPATH out
                    # earlier because we wanted to make sure to pick up
                    # our elf's indirect dependencies. But now we want to
                    # filter these ones out, since they're not "external".
                    logger.debug("RPATH FTW: %s", lib)
                    continue
                pol_ext_deps[lib] = lddtree.libraries[lib].realpath
            ret[p.name] =""", """            pol_ext_deps.update(
                (lib, lddtree.libraries[lib].realpath)
                for lib in needed_external_libs
                if not is_subdir(lddtree.libraries[lib].realpath, wheel_path)
            )
            ret[p.name] ="""),
# wheel_abi
("wheel_abi.py", """    external_refs: dict[str, ExternalReference] = {
        p.name: ExternalReference({}, {}, p) for p in policies
    }
""", """    external_refs: dict[str, ExternalReference] = {}
    for p in policies:
        external_refs[p.name] = ExternalReference(libs={}, blacklist={}, policy=p)
"""),
("wheel_abi.py", """    ref_policy = max(
        (e.policy for e in external_refs.values() if len(e.libs) == 0),
        default=policies.linux,
    )

    blacklist_policy = max(
        (e.policy for e in external_refs.values() if len(e.blacklist) == 0),
        default=policies.linux,
    )
""", """    def best(refs: list[ExternalReference]) -> Policy:
        result = policies.linux
        for ref in refs:
            if result < ref.policy:
                result = ref.policy
        return result

    blacklist_policy = best([e for e in external_refs.values() if not e.blacklist])
    ref_policy = best([e for e in external_refs.values() if not e.libs])
"""),
("wheel_abi.py", """    overall_policy = min(
        symbol_policy,
        ucs_policy,
        pyfpe_policy,
        blacklist_policy,
        machine_policy,
    )

    if requested_policy_base_name is not None:
        overall_policy = min(overall_policy, graft_policy)

    if not allow_graft:
        overall_policy = min(overall_policy, ref_policy)
""", """    constraints = [blacklist_policy, machine_policy, pyfpe_policy, symbol_policy, ucs_policy]
    if not allow_graft:
        constraints.append(ref_policy)
    if requested_policy_base_name is not None:
        constraints.append(graft_policy)
    overall_policy = sorted(constraints, key=lambda policy: policy.priority)[0]
"""),
("wheel_abi.py", """        if soname is not None:
            found_policy = policies.linux
            for policy in policies:
                if soname in policy.whitelist:
                    found_policy = max(found_policy, policy)
            if policies""", """        if soname is not None:
            found_policy = max(
                (policy for policy in policies if soname in policy.whitelist),
                default=policies.linux,
            )
            if policies"""),
("wheel_abi.py", """                if lib not in d[k].blacklist:
                    d[k].blacklist[lib] = sorted(symbols)
                else:
                    d[k].blacklist[lib] = sorted(
                        set(d[k].blacklist[lib]) | set(symbols),
                    )
""", """                known = d[k].blacklist.get(lib, [])
                d[k].blacklist[lib] = sorted({*known, *symbols})
"""),
("wheel_abi.py", """        for fn, elf_tree in nonpy_elftree.items():
            # If a non-pyextension ELF file is not needed by something else
            # inside the wheel, then it was not checked by the logic above and
            # we should walk its elftree.
            if fn.name not in needed_libs:
                full_elftree[fn] = elf_tree

            # Even if a non-pyextension ELF file is not needed, we
            # should include it as an external reference, because
            # it might require additional external libraries.
            full_external_refs[fn] = policies.lddtree_external_references(
                elf_tree,
                ctx.path,
            )
""", """        # If a non-pyextension ELF file is not needed by something else
        # inside the wheel, then it was not checked by the logic above and
        # we should walk its elftree.
        full_elftree.update(
            (fn, elf_tree) for fn, elf_tree in nonpy_elftree.items() if fn.name not in needed_libs
        )
        # Even if a non-pyextension ELF file is not needed, we
        # should include it as an external reference, because
        # it might require additional external libraries.
        for fn in nonpy_elftree:
            refs = policies.lddtree_external_references(nonpy_elftree[fn], ctx.path)
            full_external_refs[fn] = refs
"""),
("wheel_abi.py", """        needed_libs = {
            lib
            for elf in itertools.chain(full_elftree.values(), nonpy_elftree.values())
            for lib in elf.needed
        }
""", """        needed_libs: set[str] = set()
        for tree in [*full_elftree.values(), *nonpy_elftree.values()]:
            needed_libs.update(tree.needed)
"""),
# lddtree
("lddtree.py", """    for ldpath in ldpaths:
        path = os.path.join(ldpath, lib)
        target = Path(readlink(path, root, prefixed=True))

        if target.is_file():
            with open(target, "rb") as f:
                try:
                    libelf = ELFFile(f)
                except ELFError:
                    # e.g. a linker script
                    log.debug("ignoring %s: not an ELF file", path)
                    continue
                if platform.is_compatible(_get_platform(libelf)):
                    return target, path

    return None, None
""", """    candidates = (os.path.join(ldpath, lib) for ldpath in ldpaths)
    for path in candidates:
        target = Path(readlink(path, root, prefixed=True))
        if target.is_file() and _usable(target, platform):
            return target, path

    return None, None


def _usable(target: Path, platform: Platform) -> bool:
    with target.open("rb") as f:
        try:
            other = _get_platform(ELFFile(f))
        except ELFError:
            # e.g. a linker script
            log.debug("ignoring %s: not an ELF file", target)
            return False
        return platform.is_compatible(other)
"""),
("lddtree.py", """    seen: dict[str, str] = {}
    return [seen.setdefault(x, x) for x in items if x not in seen]
""", """    return list(dict.fromkeys(items))
"""),
("lddtree.py", """        os_abis = frozenset((self._elf_osabi, other._elf_osabi))
        compat_sets = (frozenset(f"ELFOSABI_{x}" for x in ("NONE", "SYSV", "GNU", "LINUX")),)
        return (
            (len(os_abis) == 1 or any(os_abis.issubset(x) for x in compat_sets))
            and self._elf_class == other._elf_class
            and self._elf_little_endian == other._elf_little_endian
            and self._elf_machine == other._elf_machine
        )
""", """        if (self._elf_class, self._elf_little_endian, self._elf_machine) != (
            other._elf_class,
            other._elf_little_endian,
            other._elf_machine,
        ):
            return False
        linux_abis = {"ELFOSABI_NONE", "ELFOSABI_SYSV", "ELFOSABI_GNU", "ELFOSABI_LINUX"}
        return self._elf_osabi == other._elf_osabi or {self._elf_osabi, other._elf_osabi} <= linux_abis
"""),
("lddtree.py", """        for soname in needed:
            if soname.startswith(("libc.musl-", "ld-musl-")):
                if libc is None:
                    libc = Libc.MUSL
                if libc != Libc.MUSL:
                    msg = f"found a dependency on MUSL but the libc is already set to {libc}"
                    raise InvalidLibcError(msg)
            elif soname == "libc.so.6" or soname.startswith(("ld-linux-", "ld64.so.")):
                if libc is None:
                    libc = Libc.GLIBC
                if libc != Libc.GLIBC:
                    msg = f"found a dependency on GLIBC but the libc is already set to {libc}"
                    raise InvalidLibcError(msg)
""", """        for soname in needed:
            wanted = _libc_of(soname)
            if wanted is None:
                continue
            libc = libc or wanted
            if libc is not wanted:
                msg = f"found a dependency on {wanted.name} but the libc is already set to {libc}"
                raise InvalidLibcError(msg)
"""),
("lddtree.py", """def find_lib(
""", """def _libc_of(soname: str) -> Libc | None:
    if soname.startswith("libc.musl-") or soname.startswith("ld-musl-"):
        return Libc.MUSL
    if soname == "libc.so.6" or soname[:9] == "ld-linux-" or soname[:8] == "ld64.so.":
        return Libc.GLIBC
    return None


def find_lib(
"""),
# elfutils
("elfutils.py", """    undef_symbols = set()
    with path.open("rb") as f:
        elf = ELFFile(f)
        if section := _get_section_by_type(elf, SymbolTableSection):
            # look for all undef symbols
            # if the symbol is weak don't consider it as undefined, it's "optional"
            for sym in section.iter_symbols():
                if sym["st_shndx"] == "SHN_UNDEF" and sym["st_info"]["bind"] != "STB_WEAK":
                    undef_symbols.add(sym.name)
    return undef_symbols
""", """    with open(path, "rb") as f:
        section = _get_section_by_type(ELFFile(f), SymbolTableSection)
        if section is None:
            return set()
        # look for all undef symbols
        # if the symbol is weak don't consider it as undefined, it's "optional"
        return {
            sym.name
            for sym in section.iter_symbols()
            if sym.entry["st_shndx"] == "SHN_UNDEF" and not sym["st_info"]["bind"] == "STB_WEAK"
        }
"""),
("elfutils.py", """    undef_symbols = set("*") | get_undefined_symbols(path)
    result = {}
    for lib, sym_list in symbols.items():
        intersection = sym_list & undef_symbols
        if intersection:
            result[lib] = sorted(intersection)
    return result
""", """    undef_symbols = {"*", *get_undefined_symbols(path)}
    hits = {lib: undef_symbols.intersection(sym_list) for lib, sym_list in symbols.items()}
    return {lib: sorted(found) for lib, found in hits.items() if len(found) > 0}
"""),
("elfutils.py", """    for sym in sect.iter_symbols():
        if (
            sym.name in module_init_f
            and sym["st_shndx"] != "SHN_UNDEF"
            and sym["st_info"]["type"] == "STT_FUNC"
        ):
            return True, module_init_f[sym.name]

    return False, None
""", """    defined = (
        sym.name
        for sym in sect.iter_symbols()
        if sym["st_info"]["type"] == "STT_FUNC" and sym["st_shndx"] != "SHN_UNDEF"
    )
    version = next((module_init_f[name] for name in defined if name in module_init_f), None)
    return version is not None, version
"""),
]
