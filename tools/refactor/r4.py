"""Behaviour-preserving edits, fourth set: policies, packing, options, the tree fix-ups."""
EDITS = [
("policy/__init__.py", """        for policy in policies:
            if self._musl_policy is not None and policy["name"] not in {
                "linux",
                self._musl_policy,
            }:
                continue
            if arch.value in policy["symbol_versions"] or policy["name"] == "linux":
                name = f"{policy['name']}_{base_arch}"
                if policy["name"] != "linux":
                    symbol_versions = {
                        k: frozenset(v) for k, v in policy["symbol_versions"][base_arch].items()
                    }
                else:
                    symbol_versions = {}
                aliases = tuple(f"{alias}_{base_arch}" for alias in policy["aliases"])
                whitelist = _fixup_musl_libc_soname(libc, arch, policy["lib_whitelist"])
                blacklist = {k: frozenset(v) for k, v in policy["blacklist"].items()}
                policy_ = Policy(
                    name=name,
                    aliases=aliases,
                    priority=policy["priority"],
                    symbol_versions=symbol_versions,
                    whitelist=whitelist,
                    blacklist=blacklist,
                )
                self._policies.append(policy_)

        self._policies.sort()
""", """        wanted = None if self._musl_policy is None else ("linux", self._musl_policy)
        usable = (
            entry
            for entry in policies
            if (wanted is None or entry["name"] in wanted)
            and (entry["name"] == "linux" or arch.value in entry["symbol_versions"])
        )
        self._policies.extend(
            sorted((self._load(libc, arch, entry) for entry in usable), key=attrgetter("priority"))
        )
"""),
("policy/__init__.py", """    def __iter__(self) -> Generator[Policy]:
        yield from self._policies
""", """    @staticmethod
    def _load(libc: Libc, arch: Architecture, entry: dict[str, Any]) -> Policy:
        suffix = "_" + arch.baseline.value
        versions = {} if entry["name"] == "linux" else entry["symbol_versions"][suffix[1:]]
        return Policy(
            "%s%s" % (entry["name"], suffix),
            tuple(map("{}{}".format, entry["aliases"], [suffix] * len(entry["aliases"]))),
            entry["priority"],
            dict(zip(versions.keys(), map(frozenset, versions.values()))),
            _fixup_musl_libc_soname(libc, arch, entry["lib_whitelist"]),
            {lib: frozenset(symbols) for lib, symbols in entry["blacklist"].items()},
        )

    def __iter__(self) -> Generator[Policy]:
        for policy in self._policies:
            yield policy
"""),
("policy/__init__.py", "from dataclasses import dataclass, replace\n", "from dataclasses import dataclass, replace\nfrom operator import attrgetter\n"),
("policy/__init__.py", """            for p in self._policies:
                if p.name.startswith("android") and android_api_level(p.name) <= api_level:
                    # Rename the policy to match the existing tag, and remove all other policies.
                    self._policies = [self.linux, replace(p, name=platform)]
                    break
            else:
                # The minimum API level is 21, which was the first version to be officially
                # supported by Python (see PEP 738).
                msg = f"no Android policies match the platform tag {platform!r}"
                raise ValueError(msg)
""", """            candidates = [p for p in self._policies if p.name.startswith("android")]
            match = next((p for p in candidates if android_api_level(p.name) <= api_level), None)
            if match is None:
                # The minimum API level is 21, which was the first version to be officially
                # supported by Python (see PEP 738).
                msg = "no Android policies match the platform tag {!r}".format(platform)
                raise ValueError(msg)
            # Rename the policy to match the existing tag, and remove all other policies.
            self._policies[:] = self.linux, replace(match, name=platform)
"""),
("policy/__init__.py", """    if name.startswith("linux"):
        return []
    if name.startswith("manylinux_"):
        return ["linux_" + "_".join(name.split("_")[3:])]
    if name.startswith("musllinux_"):
        return ["linux_" + "_".join(name.split("_")[3:])]
    return ["linux_" + "_".join(name.split("_")[1:])]
""", """    if name.startswith("linux"):
        return []
    skipped = 3 if name.startswith(("manylinux_", "musllinux_")) else 1
    _, *arch = name.split("_")
    return ["_".join(["linux", *arch[skipped - 1 :]])]
"""),
("policy/__init__.py", """    new_whitelist = []
    for soname in whitelist:
        if soname in soname_map:
            new_soname = soname_map[soname][arch.baseline]
            logger.debug("Replacing whitelisted '%s' by '%s'", soname, new_soname)
            new_whitelist.append(new_soname)
        else:
            new_whitelist.append(soname)
    return frozenset(new_whitelist)
""", """    return frozenset(
        soname_map[soname][arch.baseline] if soname in soname_map else soname
        for soname in whitelist
    )
"""),
("policy/__init__.py", """            if not required_vers[name].issubset(policy_sym_vers[name]):
                    for symbol""", "") if False else
("policy/__init__.py", """                blacklist_libs = set(p.blacklist.keys()) & set(lddtree.needed)
                blacklist_reduced = {k: p.blacklist[k] for k in blacklist_libs}
                blacklist = filter_undefined_symbols(
                    lddtree.realpath,
                    blacklist_reduced,
                )
""", """                blacklist = filter_undefined_symbols(
                    lddtree.realpath,
                    dict((k, v) for k, v in p.blacklist.items() if k in lddtree.needed),
                )
"""),
("wheel_abi.py", """    resolved_executables = [
        executable
        for executable in itertools.chain(py_elf_trees.values(), nonpy_elftree.values())
        if all(library.realpath is not None for library in executable.libraries.values())
    ]
""", """    def _unresolved(tree: DynamicExecutable) -> bool:
        return any(library.realpath is None for library in tree.libraries.values())

    resolved_executables: list[DynamicExecutable] = []
    for trees in (py_elf_trees, nonpy_elftree):
        resolved_executables.extend(itertools.filterfalse(_unresolved, trees.values()))
"""),
("wheel_abi.py", """    for elf_path, elf_executable in nonpy_elftree.items():
        need_resolution = any(
            elf_library.realpath is None for elf_library in elf_executable.libraries.values()
        )
        if not need_resolution:
            continue
        reference = _get_reference(elf_executable.realpath)
        if reference is None:
            continue
""", """    for elf_path, elf_executable in list(nonpy_elftree.items()):
        if not _unresolved(elf_executable):
            continue
        if (reference := _get_reference(elf_executable.realpath)) is None:
            continue
"""),
("wheel_abi.py", """                needed_new = set(libraries_new[soname].needed) - soname_all
                while needed_new:
                    needed_new_copy = needed_new.copy()
                    soname_all |= needed_new_copy
                    for soname_needed in needed_new_copy:
                        if soname_needed in reference.libraries:
                            libraries_new[soname_needed] = reference.libraries[soname_needed]
                            needed_new.update(libraries_new[soname_needed].needed)
                        else:
                            log.warning("%s not found in %s ELF tree", soname_needed, ref_name)
                    needed_new -= soname_all
""", """                pending = list(libraries_new[soname].needed)
                while pending:
                    soname_needed = pending.pop(0)
                    if soname_needed in soname_all:
                        continue
                    soname_all.add(soname_needed)
                    if soname_needed not in reference.libraries:
                        log.warning("%s not found in %s ELF tree", soname_needed, ref_name)
                        continue
                    found = reference.libraries[soname_needed]
                    libraries_new[soname_needed] = found
                    pending.extend(found.needed)
"""),
("wheel_abi.py", """            if any(p.name == "purelib" for p in fn.parents):
                shared_libraries_in_purelib.append(so_name)
""", """            if "purelib" in fn.parts[:-1]:
                shared_libraries_in_purelib += [so_name]
"""),
("wheel_abi.py", """    for external_ref in external_refs.values():
        # linux tag (priority 0) has no white-list, do not analyze it
        if external_ref.policy.priority == 0:
            continue
        # go through all libs, retrieving their soname and realpath
        for libname, realpath in external_ref.libs.items():
            if realpath and realpath not in result:
                result[Path(realpath)] = libname
    return result
""", """    # linux tag (priority 0) has no white-list, do not analyze it
    pairs = itertools.chain.from_iterable(
        ref.libs.items() for ref in external_refs.values() if ref.policy.priority
    )
    for libname, realpath in pairs:
        if realpath:
            result.setdefault(Path(realpath), libname)
    return result
"""),
("tools.py", """    date_time_args = date_time.timetuple()[:6]
    if date_time_args < (1980, 1, 1, 0, 0, 0):
        logger.warning("dir2zip, clipping timestamp to 1980-01-01")
        date_time_args = (1980, 1, 1, 0, 0, 0)
    compression = zipfile.ZIP_DEFLATED
    with zipfile.ZipFile(zip_fname, "w", compression=compression) as z:
        for dname, _, files in walk(in_dir):
            if dname != in_dir:
                out_dname = f"{dname.relative_to(in_dir)}/"
                zinfo = zipfile.ZipInfo.from_file(dname, out_dname, strict_timestamps=False)
                zinfo.date_time = date_time_args
                z.writestr(zinfo, b"")
            for file in files:
                fname = dname / file
                out_fname = fname.relative_to(in_dir)
                zinfo = zipfile.ZipInfo.from_file(fname, out_fname, strict_timestamps=False)
                zinfo.date_time = date_time_args
                zinfo.compress_type = compression
                with fname.open("rb") as fp:
                    z.writestr(zinfo, fp.read(), compresslevel=zip_compression_level)
""", """    stamp = max(date_time.timetuple()[:6], (1980, 1, 1, 0, 0, 0))

    def member(source: Path, name: str) -> zipfile.ZipInfo:
        info = zipfile.ZipInfo.from_file(source, name, strict_timestamps=False)
        info.date_time = stamp
        return info

    with zipfile.ZipFile(zip_fname, mode="w", compression=zipfile.ZIP_DEFLATED) as archive:
        for directory, _, names in walk(in_dir):
            relative = directory.relative_to(in_dir)
            if relative.parts:
                archive.writestr(member(directory, relative.as_posix() + "/"), b"")
            for source in map(directory.joinpath, names):
                info = member(source, str(relative / source.name))
                info.compress_type = zipfile.ZIP_DEFLATED
                archive.writestr(info, source.read_bytes(), compresslevel=zip_compression_level)
"""),
("tools.py", """        for name in z.namelist():
            member = z.getinfo(name)
            extracted_path""", """        for member in map(z.getinfo, z.namelist()):
            extracted_path"""),
("wheeltools.py", """            relative_path = path.relative_to(bdist_dir)
            if skip(relative_path):
                hash_ = ""
                size = ""
            else:
                data = path.read_bytes()
                digest = hashlib.sha256(data).digest()
                sha256 = urlsafe_b64encode(digest).rstrip(b"=").decode("ascii")
                hash_ = f"sha256={sha256}"
                size = f"{len(data)}"
            record_path_ = path.relative_to(bdist_dir).as_posix()
            writer.writerow((record_path_, hash_, size))
""", """            relative_path = path.relative_to(bdist_dir)
            row = [relative_path.as_posix(), "", ""]
            if not skip(relative_path):
                hasher = hashlib.sha256()
                with path.open("rb") as stream:
                    hasher.update(stream.read())
                digest = urlsafe_b64encode(hasher.digest()).decode("ascii").rstrip("=")
                row[1:] = ["sha256=" + digest, str(path.stat().st_size)]
            writer.writerow(row)
"""),
("wheeltools.py", """                packed = self.out_wheel.with_name(f"{self.out_wheel.name}.tmp")
                try:
                    dir2zip(self.name, packed, self.zip_compression_level, date_time)
                    packed.replace(self.out_wheel)
                finally:
                    packed.unlink(missing_ok=True)
""", """                packed = self.out_wheel.parent / (self.out_wheel.name + ".tmp")
                try:
                    dir2zip(self.name, packed, self.zip_compression_level, date_time)
                    os.replace(packed, self.out_wheel)
                except BaseException:
                    packed.unlink(missing_ok=True)
                    raise
"""),
("wheeltools.py", """    in_info_tags = [tag for name, tag in info.items() if name == "Tag"]
""", """    in_info_tags = list(info.get_all("Tag", []))
"""),
("wheeltools.py", """    wanted_tags = ["-".join(tup) for tup in product(pyc_apis, platforms)]
    new_tags = [tag for tag in wanted_tags if tag not in in_info_tags]
    unwanted_tags = ["-".join(tup) for tup in product(pyc_apis, to_remove)]
    updated_tags = [tag for tag in in_info_tags if tag not in unwanted_tags]
    updated_tags += new_tags
""", """    unwanted_tags = [f"{pyc_api}-{platform}" for pyc_api in pyc_apis for platform in to_remove]
    updated_tags = [tag for tag in in_info_tags if tag not in unwanted_tags]
    for pyc_api, platform in product(pyc_apis, platforms):
        tag = f"{pyc_api}-{platform}"
        if tag not in in_info_tags:
            updated_tags.append(tag)
"""),
("repair.py", """                if not dest_dir.exists():
                    dest_dir.mkdir()
                sbom_filepaths.append(src_path)
""", """                dest_dir.mkdir(exist_ok=True)
                sbom_filepaths.append(src_path)
"""),
("repair.py", """            needed = elf_read_dt_needed(path)  # TODO perf, we already read those at some point
            replacements = []
            for n in needed:
                if n in soname_map:
                    replacements.append((n, soname_map[n][0]))
                elif n in removed_sonames:
                    patcher.remove_needed(path, n)
            if replacements:
                patcher.set_rpath(path, "$ORIGIN")
                patcher.replace_needed(path, *replacements)
            else:
                patcher.clear_rpath(path)
""", """            for gone in sorted(removed_sonames.difference(soname_map).intersection(elf_read_dt_needed(path))):
                patcher.remove_needed(path, gone)
            replacements = [
                (name, soname_map[name][0])
                for name in elf_read_dt_needed(path)
                if name in soname_map
            ]
            if not replacements:
                patcher.clear_rpath(path)
                continue
            patcher.replace_needed(path, *replacements)
            patcher.set_rpath(path, "$ORIGIN")
"""),
("repair.py", """    with src_path.open("rb") as f:
        shorthash = hashfile(f)[:8]
""", """    with open(src_path, mode="rb") as stream:
        digest = hashfile(stream)
    shorthash = digest[:8]
"""),
("repair.py", """    shutil.copy2(src_path, dest_path)
    statinfo = dest_path.stat()
    if not statinfo.st_mode & stat.S_IWRITE:
        dest_path.chmod(statinfo.st_mode | stat.S_IWRITE)
""", """    shutil.copyfile(src_path, dest_path)
    shutil.copystat(src_path, dest_path)
    mode = os.stat(dest_path).st_mode
    if mode & stat.S_IWRITE == 0:
        os.chmod(dest_path, stat.S_IMODE(mode) | stat.S_IWRITE)
"""),
("main_repair.py", """        for lc in Libc:
            if plat_base.startswith(lc.tag_prefix):
                if libc is None:
                    libc = lc
                if libc != lc:
                    msg = (
                        f"can't repair wheel {wheel_filename} with {libc.name} libc to a wheel "
                        f"targeting {lc.name}"
                    )
                    parser.error(msg)
""", """        lc = next((x for x in Libc if plat_base.startswith(x.tag_prefix)), None)
        if lc is not None:
            libc = libc or lc
            if libc is not lc:
                parser.error(
                    "can't repair wheel %s with %s libc to a wheel targeting %s"
                    % (wheel_filename, libc.name, lc.name)
                )
"""),
("main_repair.py", """        if requested_policy > wheel_abi.ucs_policy:
            msg = (
                f'cannot repair "{wheel_file}" to "{plat}" ABI because it was '
                "compiled against a UCS2 build of Python. You'll need to compile "
                "the wheel against a wide-unicode build of Python."
            )
            parser.error(msg)

        if requested_policy > wheel_abi.blacklist_policy:
            msg = (
                f'cannot repair "{wheel_file}" to "{plat}" ABI because it '
                "depends on black-listed symbols."
            )
            parser.error(msg)

        if requested_policy > wheel_abi.machine_policy:
            msg = (
                f'cannot repair "{wheel_file}" to "{plat}" ABI because it '
                "depends on unsupported ISA extensions."
            )
            parser.error(msg)
""", """        limits = (
            (
                wheel_abi.ucs_policy,
                "was compiled against a UCS2 build of Python. You'll need to compile "
                "the wheel against a wide-unicode build of Python.",
            ),
            (wheel_abi.blacklist_policy, "depends on black-listed symbols."),
            (wheel_abi.machine_policy, "depends on unsupported ISA extensions."),
        )
        for limit, reason in limits:
            if limit < requested_policy:
                parser.error(f'cannot repair "{wheel_file}" to "{plat}" ABI because it {reason}')
"""),
("main_show.py", """    for p in policies:
        if p > winfo.overall_policy:
            entry: dict[str, Any] = {}
            p_libs""", """    better = [p for p in policies if winfo.overall_policy < p]
    for p in better:
        if True:
            entry: dict[str, Any] = {}
            p_libs"""),
("lddtree.py", """        if len(ld_musl) == 0:
            ldpaths["conf"] = [
                root + "/lib",
                root + "/usr/local/lib",
                root + "/usr/lib",
            ]
        else:
            ldpaths["conf"] = []
            for ldpath in re.split("[:\\n]", ld_musl[0].read_text()):
                ldpath_stripped = ldpath.strip()
                if ldpath_stripped == "":
                    continue
                ldpaths["conf"].append(root + ldpath_stripped)
""", """        directories = ["/lib", "/usr/local/lib", "/usr/lib"]
        for config in ld_musl:
            entries = config.read_text().replace("\\n", ":").split(":")
            directories = list(filter(None, map(str.strip, entries)))
        ldpaths["conf"] = [root + directory for directory in directories]
"""),
("lddtree.py", """        for soname in needed:
            if soname.startswith(("libc.musl-", "ld-musl-")):
                if libc is None:
                    libc = Libc.MUSL
                if libc != Libc.MUSL:
                    msg = f"found a dependency on MUSL but the libc is already set to {libc}"
                    raise InvalidLibcError(msg)
            elif soname == "libc.so.6" or soname.startswith(("ld-linux-", "ld64.so.")):
                if libc is None:
                    libc = Libc.GLIBC
                if libc != Libc.GLIBC:
                    msg = f"found a dependency on GLIBC but the libc is already set to {libc}"
                    raise InvalidLibcError(msg)
""", """        for soname in needed:
            implied = _libc_of(soname)
            if implied is None:
                continue
            libc = libc or implied
            if libc is not implied:
                msg = (
                    f"found a dependency on {implied.name} but the libc is already set to {libc}"
                )
                raise InvalidLibcError(msg)
"""),
("lddtree.py", """def ldd(
    path: Path,""", """def _libc_of(soname: str) -> Libc | None:
    \"\"\"The libc a dependency belongs to, if any\"\"\"
    if any(soname.startswith(prefix) for prefix in ("libc.musl-", "ld-musl-")):
        return Libc.MUSL
    if soname == "libc.so.6" or any(map(soname.startswith, ("ld-linux-", "ld64.so."))):
        return Libc.GLIBC
    return None


def ldd(
    path: Path,"""),
("tmpdirs.py", """        os.chdir(self._pwd)
        self._tmpdir.__exit__(exc, value, tb)
""", """        try:
            os.chdir(self._pwd)
        finally:
            self._tmpdir.cleanup()
"""),
]
