"""Behaviour-preserving edits, third set: other idioms."""
EDITS = [
("lddtree.py", """    elif base_arch == Architecture.x86_64:
        for section in elf.iter_sections():
            if not isinstance(section, NoteSection):
                continue
            for note in section.iter_notes():
                if note["n_type"] != "NT_GNU_PROPERTY_TYPE_0":
                    continue
                if note["n_name"] != "GNU":
                    continue
                for prop in note["n_desc"]:
                    if prop.pr_type != "GNU_PROPERTY_X86_ISA_1_NEEDED":
                        continue
                    if prop.pr_datasz != 4:
                        continue
                    data = prop.pr_data
                    data -= data & 1  # clear baseline
                    if data & 8 == 8:
                        ext_arch = Architecture.x86_64_v4
                        break
                    if data & 4 == 4:
                        ext_arch = Architecture.x86_64_v3
                        break
                    if data & 2 == 2:
                        ext_arch = Architecture.x86_64_v2
                        break
                    if data != 0:
                        error_msg = "unknown x86_64 ISA"
                break
""", """    elif base_arch == Architecture.x86_64:
        for data in _isa_properties(elf):
            for bit, level in _ISA_LEVELS:
                if data & bit:
                    ext_arch = level
                    break
            else:
                if data & ~1:
                    error_msg = "unknown x86_64 ISA"
"""),
("lddtree.py", """def _get_platform(elf: ELFFile) -> Platform:
""", """_ISA_LEVELS = (
    (1 << 3, Architecture.x86_64_v4),
    (1 << 2, Architecture.x86_64_v3),
    (1 << 1, Architecture.x86_64_v2),
)


def _isa_properties(elf: ELFFile):
    for section in elf.iter_sections():
        if not isinstance(section, NoteSection):
            continue
        note = next(
            (
                n
                for n in section.iter_notes()
                if n["n_name"] == "GNU" and n["n_type"] == "NT_GNU_PROPERTY_TYPE_0"
            ),
            None,
        )
        if note is not None:
            yield from (
                p.pr_data
                for p in note["n_desc"]
                if p.pr_type == "GNU_PROPERTY_X86_ISA_1_NEEDED" and p.pr_datasz == 4
            )


def _get_platform(elf: ELFFile) -> Platform:
"""),
("lddtree.py", """    for _ in range(_MAX_LINKS):
        if not os.path.islink(root + path):
            break
        dirname, target = os.path.dirname(path), os.readlink(root + path)
""", """    followed = 0
    while followed < _MAX_LINKS and os.path.islink(root + path):
        followed += 1
        dirname, _ = os.path.split(path)
        target = os.readlink(root + path)
"""),
("lddtree.py", """    ldpaths: list[str] = []
    for ldpath in str_ldpaths.split(":"):
        if ldpath == "":
            # The ldso treats "" paths as $PWD.
            ldpath_ = os.getcwd()
        elif re.search(ORIGIN_RE, ldpath):
            if not path:
                msg = "can't expand $ORIGIN without a path"
                raise ValueError(msg)
            origin = os.path.dirname(os.path.abspath(path))
            # a function, as a backslash in a replacement string is an escape
            ldpath_ = re.sub(ORIGIN_RE, lambda _: origin, ldpath)
        else:
            ldpath_ = root + ldpath
        ldpaths.append(normpath(ldpath_))
    return [p for p in dedupe(ldpaths) if os.path.isdir(p)]
""", """    def expand(entry: str) -> str:
        if not entry:
            # The ldso treats "" paths as $PWD.
            return os.getcwd()
        if ORIGIN_RE.search(entry) is None:
            return root + entry
        if not path:
            msg = "can't expand $ORIGIN without a path"
            raise ValueError(msg)
        origin = os.path.dirname(os.path.abspath(path))
        # not a string, as a backslash in a replacement string is an escape
        return ORIGIN_RE.sub(lambda _match: origin, entry)

    expanded = [normpath(expand(entry)) for entry in str_ldpaths.split(":")]
    return list(filter(os.path.isdir, dedupe(expanded)))
"""),
("lddtree.py", """    env_ldpath = ":".join(
        filter(None, (os.environ.get("AUDITWHEEL_LD_LIBRARY_PATH"), ld_library_path)),
    )
""", """    env_ldpath = os.environ.get("AUDITWHEEL_LD_LIBRARY_PATH") or ""
    if ld_library_path:
        env_ldpath = f"{env_ldpath}:{ld_library_path}" if env_ldpath else ld_library_path
"""),
("lddtree.py", """            ldpaths["conf"] = []
            for ldpath in re.split("[:\\n]", ld_musl[0].read_text()):
                ldpath_stripped = ldpath.strip()
                if ldpath_stripped == "":
                    continue
                ldpaths["conf"].append(root + ldpath_stripped)
""", """            entries = ld_musl[0].read_text().replace("\\n", ":").split(":")
            ldpaths["conf"] = [root + e.strip() for e in entries if e.strip()]
"""),
("lddtree.py", """        for soname in needed:
            if soname.startswith(("libc.musl-", "ld-musl-")):
                if libc is None:
                    libc = Libc.MUSL
                if libc != Libc.MUSL:
                    msg = f"found a dependency on MUSL but the libc is already set to {libc}"
                    raise InvalidLibcError(msg)
            elif soname == "libc.so.6" or soname.startswith(("ld-linux-", "ld64.so.")):
                if libc is None:
                    libc = Libc.GLIBC
                if libc != Libc.GLIBC:
                    msg = f"found a dependency on GLIBC but the libc is already set to {libc}"
                    raise InvalidLibcError(msg)
""", """        for soname in needed:
            implied = _libc_of(soname)
            if implied is None:
                continue
            libc = libc or implied
            if libc is not implied:
                msg = (
                    f"found a dependency on {implied.name} but the libc is "
                    f"already set to {libc}"
                )
                raise InvalidLibcError(msg)
"""),
("lddtree.py", """def ldd(
    path: Path,
""", """def _libc_of(soname: str) -> Libc | None:
    if soname == "libc.so.6" or soname.startswith(("ld-linux-", "ld64.so.")):
        return Libc.GLIBC
    if soname.startswith("libc.musl-") or soname.startswith("ld-musl-"):
        return Libc.MUSL
    return None


def ldd(
    path: Path,
"""),
("lddtree.py", """    for soname in needed:
        if soname in _all_libs:
            continue
        if soname in _excluded_libs:
            continue
        if any(fnmatch(soname, e) for e in exclude):
            log.info("Excluding %s", soname)
            _excluded_libs.add(soname)
            continue

        # special case""", """    def is_excluded(name: str) -> bool:
        for pattern in exclude:
            if fnmatch(name, pattern):
                log.info("Excluding %s", name)
                return True
        return False

    for soname in dict.fromkeys(needed):
        if soname in _all_libs:
            continue
        if is_excluded(soname):
            _excluded_libs.add(soname)
            continue

        # special case"""),
("lddtree.py", """        if realpath is not None and any(fnmatch(str(realpath), e) for e in exclude):
            log.info("Excluding %s", realpath)
            _excluded_libs.add(soname)
            continue
        _all_libs[soname] = DynamicLibrary(soname, fullpath, realpath)
        if realpath is None or fullpath is None:
            continue
        dependency = ldd(realpath, root, prefix, ldpaths, fullpath, exclude, _all_libs)
        _all_libs[soname] = DynamicLibrary(
            soname,
            fullpath,
            realpath,
            dependency.platform,
            dependency.needed,
        )
""", """        if realpath is not None and is_excluded(str(realpath)):
            _excluded_libs.add(soname)
            continue
        library = DynamicLibrary(soname, fullpath, realpath)
        _all_libs[soname] = library
        if realpath is not None and fullpath is not None:
            dependency = ldd(realpath, root, prefix, ldpaths, fullpath, exclude, _all_libs)
            _all_libs[soname] = replace(
                library,
                platform=dependency.platform,
                needed=dependency.needed,
            )
"""),
("lddtree.py", "from dataclasses import dataclass\n", "from dataclasses import dataclass, replace\n"),
("elfutils.py", """        for verneed, verneed_iter in section.iter_versions():
            if TYPE_CHECKING:
                # this should be enforced some other way in pyelftools
                assert verneed.name is not None
            if verneed.name.startswith("ld-linux") or verneed.name in [
                "ld64.so.2",
                "ld64.so.1",
            ]:
                continue
            for vernaux in verneed_iter:
                yield (verneed.name, vernaux.name)
""", """        for verneed, auxiliaries in section.iter_versions():
            library = verneed.name
            names = [aux.name for aux in auxiliaries]
            if not (library.startswith("ld-linux") or library in {"ld64.so.1", "ld64.so.2"}):
                yield from ((library, name) for name in names)
"""),
("elfutils.py", """                    undef_symbols.add(sym.name)
    return undef_symbols
""", """                    undef_symbols |= {sym.name}
    return undef_symbols
"""),
("elfutils.py", """    result = {}
    for lib, sym_list in symbols.items():
        intersection = sym_list & undef_symbols
        if intersection:
            result[lib] = sorted(intersection)
    return result
""", """    found = {lib: sorted(s for s in names if s in undef_symbols) for lib, names in symbols.items()}
    return {lib: names for lib, names in found.items() if names}
"""),
("elfutils.py", """    if section := _get_section_by_type(elf, SymbolTableSection):
        # look for symbols that are externally referenced
        for sym in section.iter_symbols():
            if (
                sym.name in offending_symbol_names
                and sym["st_shndx"] == "SHN_UNDEF"
                and sym["st_info"]["type"] in ("STT_FUNC", "STT_NOTYPE")
            ):
                return True
    return False
""", """    section = _get_section_by_type(elf, SymbolTableSection)
    if section is None:
        return False
    # look for symbols that are externally referenced
    return any(
        sym["st_shndx"] == "SHN_UNDEF"
        and sym["st_info"]["type"] in {"STT_FUNC", "STT_NOTYPE"}
        and sym.name in offending_symbol_names
        for sym in section.iter_symbols()
    )
"""),
("elfutils.py", """    for path in paths:
        if path.name.endswith(".py"):
            continue
        else:
            try:
                with path.open("rb") as f:
                    candidate = ELFFile(f)
                    yield path, candidate
            except ELFError:
                # not an elf file
                continue
""", """    for path in paths:
        if path.suffix == ".py" or path.name == ".py":
            continue
        with open(path, "rb") as f:
            try:
                candidate = ELFFile(f)
            except ELFError:
                # not an elf file
                continue
            yield path, candidate
"""),
("wheel_abi.py", """    result = []
    for external_ref in external_refs.values():
        # skip the linux policy
        if external_ref.policy.priority == 0:
            continue
        policy_symbols = deepcopy(versioned_symbols)
        for soname in external_ref.libs:
            if soname not in external_versioned_symbols:
                continue
            ext_symbols = external_versioned_symbols[soname]
            for k in iter(ext_symbols):
                policy_symbols[k].update(ext_symbols[k])
""", """    result = []
    for external_ref in external_refs.values():
        # skip the linux policy
        if external_ref.policy == policies.linux:
            continue
        policy_symbols = defaultdict(set)
        for origin in (
            versioned_symbols,
            *(external_versioned_symbols.get(soname, {}) for soname in external_ref.libs),
        ):
            for k, versions in origin.items():
                policy_symbols[k] |= versions
"""),
("wheel_abi.py", "from copy import deepcopy\n", ""),
("wheel_abi.py", """        for libname, realpath in external_ref.libs.items():
            if realpath and realpath not in result:
                result[Path(realpath)] = libname
""", """        for libname, realpath in external_ref.libs.items():
            if realpath is None:
                continue
            result.setdefault(Path(realpath), libname)
"""),
("wheel_abi.py", """        for key, value in elf_find_versioned_symbols(elf):
            log.debug("path %s, key %s, value %s", path, key, value)
            elf_versioned_symbols[key].add(value)
    return result
""", """        found = list(elf_find_versioned_symbols(elf))
        for key, value in found:
            elf_versioned_symbols[key] |= {value}
    return result
"""),
("wheel_abi.py", """        if soname is not None:
            found_policy = policies.linux
            for policy in policies:
                if soname in policy.whitelist:
                    found_policy = max(found_policy, policy)
            if policies.linux.priority < found_policy.priority:
""", """        if soname is not None:
            found_policy = max(
                (p for p in policies if soname in p.whitelist),
                default=policies.linux,
            )
            if found_policy != policies.linux:
"""),
("wheel_abi.py", """        if platform_wheel""", """        if platform_wheel""") if False else
("wheel_abi.py", """        if not platform_wheel:
            arch = None if architecture is None else architecture.value
            raise NonPlatformWheelError(arch, shared_libraries_with_invalid_machine)
""", """        if not (full_elftree or nonpy_elftree):
            arch = None if architecture is None else architecture.value
            raise NonPlatformWheelError(arch, shared_libraries_with_invalid_machine)
"""),
("wheel_abi.py", """                    if libc is None:
                        log.info("setting libc to %s", elftree.libc)
                        libc = elftree.libc
                    elif libc != elftree.libc:
                        log.warning("ignoring: %s with %s libc", so_name, elftree.libc)
                        continue
""", """                    if libc is not None and libc != elftree.libc:
                        log.warning("ignoring: %s with %s libc", so_name, elftree.libc)
                        continue
                    if libc is None:
                        log.info("setting libc to %s", elftree.libc)
                    libc = elftree.libc
"""),
("libc.py", """    try:
        (dl_path,) = list(Path("/lib").glob("libc.musl-*.so.1"))
    except ValueError:
        msg = "musl libc not detected"
        logger.debug("%s", msg)
        raise InvalidLibcError(msg) from None

    return dl_path
""", """    candidates = list(Path("/lib").glob("libc.musl-*.so.1"))
    if len(candidates) == 1:
        return candidates[0]
    msg = "musl libc not detected"
    logger.debug("%s", msg)
    raise InvalidLibcError(msg)
"""),
("libc.py", """    m = re.match(r"(?P<major>[0-9]+)\\.(?P<minor>[0-9]+)", version)
    if not m:
        msg = f"failed to parse glibc version from string {version!r}"
        raise InvalidLibcError(msg)

    return LibcVersion(int(m.group("major")), int(m.group("minor")))
""", """    if m := re.match(r"([0-9]+)\\.([0-9]+)", version):
        major, minor = m.groups()
        return LibcVersion(major=int(major), minor=int(minor))
    msg = f"failed to parse glibc version from string {version!r}"
    raise InvalidLibcError(msg)
"""),
("architecture.py", """        if machine in {"x86_64", "i686"}:
            machine = {64: "x86_64", 32: "i686"}[bits]
        elif machine in {"aarch64", "armv8l"}:
            # use armv7l policy for 64-bit arm kernel in 32-bit mode (armv8l)
            machine = {64: "aarch64", 32: "armv7l"}[bits]

        return Architecture(machine)
""", """        families = (
            ({"x86_64", "i686"}, {64: "x86_64", 32: "i686"}),
            # use armv7l policy for 64-bit arm kernel in 32-bit mode (armv8l)
            ({"aarch64", "armv8l"}, {64: "aarch64", 32: "armv7l"}),
        )
        for names, by_bits in families:
            if machine in names:
                return Architecture(by_bits[bits])
        return Architecture(machine)
"""),
("architecture.py", """        if self.value.startswith("arm64"):
            return Architecture.aarch64
        if self.value.startswith("x86_64"):
            return Architecture.x86_64
        return self
""", """        match self:
            case Architecture.arm64_v8a:
                return Architecture.aarch64
            case Architecture.x86_64_v2 | Architecture.x86_64_v3 | Architecture.x86_64_v4:
                return Architecture.x86_64
        return self
"""),
("tmpdirs.py", """        self._pwd = Path.cwd()
        os.chdir(self._name)
        self._tmpdir.__enter__()
        return self._name
""", """        self._pwd = Path(os.getcwd())
        os.chdir(str(self.name))
        self._tmpdir.__enter__()
        return self.name
"""),
("patcher.py", """            if (
                update_info.soname is not None
                or update_info.remove_needed
                or update_info.replace_needed
                or update_info.clear_rpath
                or update_info.rpath is not None
            ):
                errors.append(filepath)
""", """            if update_info != ElfUpdateInfo():
                errors.append(filepath)
"""),
("patcher.py", """    m = re.match(r"patchelf\\s+(\\d+(.\\d+(.\\d+)?)?)", version)
    if m and tuple(int(x) for x in m.group(1).split(".")) >= (0, 14, 5):
        return Path(patchelf_path)
    msg =""", """    if m := re.match(r"patchelf\\s+(\\d+(.\\d+(.\\d+)?)?)", version):
        numbers = [int(x) for x in m[1].split(".")]
        if numbers >= [0, 14, 5]:
            return Path(patchelf_path)
    msg ="""),
("condatools.py", """        files = self.path / "info" / "files"
        with files.open() as f:
            return [line.strip() for line in f.readlines()]
""", """        with open(self.path.joinpath("info", "files")) as f:
            return list(map(str.strip, f))
"""),
("genericpkgctx.py", """    if in_path.name.endswith(".whl"):
        return InWheelCtx(in_path, out_path)
    if in_path.name.endswith(".tar.bz2"):
        if out_path is not None:
            raise NotImplementedError
        return InCondaPkgCtx(in_path)
    msg =""", """    name = in_path.name
    if name.endswith(".tar.bz2"):
        if out_path is None:
            return InCondaPkgCtx(in_path)
        raise NotImplementedError
    if name.endswith(".whl"):
        return InWheelCtx(in_path, out_path)
    msg ="""),
("tools.py", """            if type:
                try:
                    self.env_default = type(self.env_default)
                except Exception:  # noqa: BLE001
                    self.option_strings = kwargs["option_strings"]
                    args = {
                        "value": self.env_default,
                        "type": type,
                        "env": self.env,
                    }
                    msg = (
                        "invalid type: %(value)r from environment variable "
                        "%(env)r cannot be converted to %(type)r"
                    )
                    raise argparse.ArgumentError(self, msg % args) from None
            default = self.env_default
        if self.env_default is not None and choices is not None and self.env_default not in choices:
            self.option_strings = kwargs["option_strings"]
            args = {
                "value": self.env_default,
                "choices": ", ".join(map(repr, choices)),
                "env": self.env,
            }
            msg = (
                "invalid choice: %(value)r from environment variable "
                "%(env)r (choose from %(choices)s)"
            )
            raise argparse.ArgumentError(self, msg % args)
""", """            if type:
                text = self.env_default
                try:
                    self.env_default = type(text)
                except Exception:  # noqa: BLE001
                    self.option_strings = kwargs["option_strings"]
                    msg = (
                        f"invalid type: {text!r} from environment variable "
                        f"{env!r} cannot be converted to {type!r}"
                    )
                    raise argparse.ArgumentError(self, msg) from None
            default = self.env_default
        if (
            choices is not None
            and self.env_default is not None
            and all(self.env_default != choice for choice in choices)
        ):
            self.option_strings = kwargs["option_strings"]
            listed = ", ".join(repr(choice) for choice in choices)
            msg = (
                f"invalid choice: {self.env_default!r} from environment variable "
                f"{env!r} (choose from {listed})"
            )
            raise argparse.ArgumentError(self, msg)
"""),
("main_show.py", """    libs_with_versions = [
        f"{k} with versions {{{', '.join(repr(version) for version in sorted(v))}}}"
        for k, v in sorted(winfo.versioned_symbols.items())
    ]
""", """    libs_with_versions = []
    for name in sorted(winfo.versioned_symbols):
        versions = sorted(winfo.versioned_symbols[name])
        libs_with_versions += [name + " with versions {" + ", ".join(map(repr, versions)) + "}"]
"""),
("main_show.py", """    for p in policies:
        if p > winfo.overall_policy:
            libs = winfo.external_refs[p.name].libs
            if len(libs):
                printp(""", """    for p in [p for p in policies if p > winfo.overall_policy]:
        if True:
            if libs := winfo.external_refs[p.name].libs:
                printp("""),
("main_repair.py", """        if requested_policy > wheel_abi.sym_policy:
            msg = (
                f'cannot repair "{wheel_file}" to "{plat}" ABI because of the '
                "presence of too-recent versioned symbols. You'll need to compile "
                "the wheel on an older toolchain."
            )
            parser.error(msg)

        if requested_policy > wheel_abi.ucs_policy:
            msg = (
                f'cannot repair "{wheel_file}" to "{plat}" ABI because it was '
                "compiled against a UCS2 build of Python. You'll need to compile "
                "the wheel against a wide-unicode build of Python."
            )
            parser.error(msg)

        if requested_policy > wheel_abi.blacklist_policy:
            msg = (
                f'cannot repair "{wheel_file}" to "{plat}" ABI because it '
                "depends on black-listed symbols."
            )
            parser.error(msg)

        if requested_policy > wheel_abi.machine_policy:
            msg = (
                f'cannot repair "{wheel_file}" to "{plat}" ABI because it '
                "depends on unsupported ISA extensions."
            )
            parser.error(msg)
""", """        obstacles = (
            (
                wheel_abi.sym_policy,
                "because of the presence of too-recent versioned symbols. You'll need "
                "to compile the wheel on an older toolchain.",
            ),
            (
                wheel_abi.ucs_policy,
                "because it was compiled against a UCS2 build of Python. You'll need "
                "to compile the wheel against a wide-unicode build of Python.",
            ),
            (wheel_abi.blacklist_policy, "because it depends on black-listed symbols."),
            (wheel_abi.machine_policy, "because it depends on unsupported ISA extensions."),
        )
        for limit, why in obstacles:
            if limit < requested_policy:
                parser.error(f'cannot repair "{wheel_file}" to "{plat}" ABI {why}')
"""),
("main_repair.py", """            if wheel_abi.overall_policy == policies.linux:
                # we're getting 'linux', override
                plat = policies.lowest.name
            else:
                plat = wheel_abi.overall_policy.name
""", """            # we're not getting 'linux', override
            plat = max(policies.lowest, wheel_abi.overall_policy).name
"""),
("repair.py", """            for soname, src_path in ext_libs.items():
                # Handle libpython dependencies by removing them
                if LIBPYTHON_RE.match(soname):
""", """            for soname in ext_libs:
                src_path = ext_libs[soname]
                # Handle libpython dependencies by removing them
                if LIBPYTHON_RE.match(soname) is not None:
"""),
("repair.py", """            extensions = [script_shims.get(path, path) for path in external_refs_by_fn]
            strip_symbols(itertools.chain(grafted_paths, extensions))
""", """            to_strip = list(grafted_paths)
            for path in external_refs_by_fn:
                to_strip.append(script_shims[path] if path in script_shims else path)
            strip_symbols(to_strip)
"""),
("repair.py", "import itertools\n", ""),
("sboms.py", """    # If there aren't any files then we bail.
    if not sbom_filepaths:
        return None
""", """    # If there aren't any files then we bail.
    if len(sbom_filepaths) == 0:
        return None
"""),
("policy/__init__.py", """    new_whitelist = []
    for soname in whitelist:
        if soname in soname_map:
            new_soname = soname_map[soname][arch.baseline]
            logger.debug("Replacing whitelisted '%s' by '%s'", soname, new_soname)
            new_whitelist.append(new_soname)
        else:
            new_whitelist.append(soname)
    return frozenset(new_whitelist)
""", """    return frozenset(
        soname_map[soname][arch.baseline] if soname in soname_map else soname
        for soname in whitelist
    )
"""),
("policy/__init__.py", """    if name.startswith("manylinux_"):
        return ["linux_" + "_".join(name.split("_")[3:])]
    if name.startswith("musllinux_"):
        return ["linux_" + "_".join(name.split("_")[3:])]
    return ["linux_" + "_".join(name.split("_")[1:])]
""", """    skipped = 3 if name.startswith(("manylinux_", "musllinux_")) else 1
    *_, arch = name.split("_", skipped)
    return [f"linux_{arch}"]
"""),
("policy/__init__.py", """            for p in self._policies:
                if p.name.startswith("android") and android_api_level(p.name) <= api_level:
                    # Rename the policy to match the existing tag, and remove all other policies.
                    self._policies = [self.linux, replace(p, name=platform)]
                    break
            else:
                # The""", """            levels = [p for p in self._policies if p != self.linux]
            usable = [p for p in levels if not android_api_level(p.name) > api_level]
            if usable:
                # Rename the policy to match the existing tag, and remove all other policies.
                self._policies = [self.linux, replace(usable[0], name=platform)]
            else:
                # The"""),
("wheeltools.py", """        if pure:
            raise NonPlatformWheelError(None, None)
        msg = "unknown architecture"
        raise WheelToolsError(msg)
    if missed or len(result) > 1:
        if len(result) == 1:
            msg = "wheels with multiple architectures are not supported"
        else:
            msg = f"wheels with multiple architectures are not supported, got {result}"
        raise WheelToolsError(msg)
    return result.pop()
""", """        if pure:
            raise NonPlatformWheelError(None, None)
        msg = "unknown architecture"
        raise WheelToolsError(msg)
    first, *others = result
    if not missed and not others:
        return first
    msg = "wheels with multiple architectures are not supported"
    if others:
        msg += f", got {result}"
    raise WheelToolsError(msg)
"""),
("hashfile.py", "", "") if False else
("tools.py", """    if date_time_args < (1980, 1, 1, 0, 0, 0):
        logger.warning("dir2zip, clipping timestamp to 1980-01-01")
        date_time_args = (1980, 1, 1, 0, 0, 0)
""", """    earliest = (1980, 1, 1, 0, 0, 0)
    if earliest > date_time_args:
        logger.warning("dir2zip, clipping timestamp to 1980-01-01")
    date_time_args = max(earliest, date_time_args)
"""),
]
