"""Behaviour-preserving edits, second set."""
EDITS = [
("repair.py", """        for path in grafted_paths:
            needed = elf_read_dt_needed(path)  # TODO perf, we already read those at some point
            replacements = []
            for n in needed:
                if n in soname_map:
                    replacements.append((n, soname_map[n][0]))
                elif n in removed_sonames:
                    patcher.remove_needed(path, n)
            if replacements:
                patcher.set_rpath(path, "$ORIGIN")
                patcher.replace_needed(path, *replacements)
            else:
                patcher.clear_rpath(path)
""", """        for path in grafted_paths:
            _link_grafted(path, soname_map, removed_sonames, patcher)
"""),
("repair.py", """def strip_symbols(libraries""", """def _link_grafted(
    path: Path,
    soname_map: dict[str, tuple[str, Path]],
    removed: set[str],
    patcher: ElfPatcher,
) -> None:
    for n in elf_read_dt_needed(path):
        if n not in soname_map and n in removed:
            patcher.remove_needed(path, n)
    pairs = [(n, soname_map[n][0]) for n in elf_read_dt_needed(path) if n in soname_map]
    if not pairs:
        patcher.clear_rpath(path)
        return
    patcher.replace_needed(path, *pairs)
    patcher.set_rpath(path, "$ORIGIN")


def strip_symbols(libraries"""),
("repair.py", """    base, dot, ext = src_name.partition(".")
    new_soname = f"{base}-{shorthash}{dot}{ext}" if not base.endswith(f"-{shorthash}") else src_name
""", """    base, *rest = src_name.split(".", 1)
    if base.endswith(f"-{shorthash}"):
        new_soname = src_name
    else:
        new_soname = ".".join([f"{base}-{shorthash}", *rest])
"""),
("repair.py", """    statinfo = dest_path.stat()
    if not statinfo.st_mode & stat.S_IWRITE:
        dest_path.chmod(statinfo.st_mode | stat.S_IWRITE)

    patcher.set_soname(dest_path, new_soname)
""", """    mode = os.stat(dest_path).st_mode
    if mode & stat.S_IWUSR == 0:
        os.chmod(dest_path, stat.S_IMODE(mode) | stat.S_IWUSR)

    patcher.set_soname(dest_path, new_soname)
"""),
("repair.py", """    def is_valid_rpath(rpath: str) -> bool:
        return _is_valid_rpath(rpath, lib_dir, wheel_base_dir)

    old_rpaths = patcher.get_rpath(lib_name)
    rpaths = list(filter(is_valid_rpath, old_rpaths.split(":")))
    rpaths = unique_by_index([*rpaths, rpath])
    patcher.set_rpath(lib_name, ":".join(rpaths))
""", """    kept: list[str] = []
    for entry in patcher.get_rpath(lib_name).split(":"):
        if entry not in kept and _is_valid_rpath(entry, lib_dir, wheel_base_dir):
            kept.append(entry)
    if rpath not in kept:
        kept.append(rpath)
    patcher.set_rpath(lib_name, ":".join(kept))
"""),
("repair.py", """    for token, target in token_replacements.items():
        rpath = rpath.replace(f"${token}", target)  # $TOKEN
        rpath = rpath.replace(f"${{{token}}}", target)  # ${TOKEN}
    return rpath
""", """    for token in token_replacements:
        for spelling in ("$" + token, "${" + token + "}"):
            if spelling in rpath:
                rpath = token_replacements[token].join(rpath.split(spelling))
    return rpath
"""),
("repair.py", """    components = path.parts
    return len(components) == 3 and components[0].endswith(".data") and components[1] == "scripts"
""", """    match path.parts:
        case (data, "scripts", _):
            return data.endswith(".data")
        case _:
            return False
"""),
("patcher.py", """            args = []
            if update_info.soname is not None:
                args.extend(["--set-soname", update_info.soname])
            if update_info.remove_needed:
                args.extend(
                    chain.from_iterable(
                        ("--remove-needed", soname) for soname in update_info.remove_needed
                    ),
                )
            if update_info.replace_needed:
                args.extend(
                    chain.from_iterable(
                        ("--replace-needed", *pair) for pair in update_info.replace_needed
                    ),
                )
""", """            args = []
            for soname in update_info.remove_needed:
                args += ["--remove-needed", soname]
            for old, new in update_info.replace_needed:
                args += ["--replace-needed", old, new]
            if update_info.soname is not None:
                args = ["--set-soname", update_info.soname, *args]
"""),
("patcher.py", """        if update_info := self._updates.get(key, None):
            if update_info.rpath is not None:
                return update_info.rpath
            if update_info.clear_rpath:
                return ""
        return self.get_rpath_direct(file_name)
""", """        update_info = self._updates[key] if key in self._updates else ElfUpdateInfo()
        if update_info.rpath is None:
            return "" if update_info.clear_rpath else self.get_rpath_direct(file_name)
        return update_info.rpath
"""),
("patcher.py", """        if old_key in self._updates:
            new_key = new_file_name.resolve(strict=True)
            self._updates[new_key] = self._updates.pop(old_key)
""", """        pending = self._updates.pop(old_key, None)
        if pending is None:
            return
        self._updates[new_file_name.resolve(strict=True)] = pending
"""),
("wheeltools.py", """    # Python version, C-API version combinations
    pyc_apis = ["-".join(tag.split("-")[:2]) for tag in in_info_tags]
    # unique Python version, C-API version combinations
    pyc_apis = unique_by_index(pyc_apis)
    # Add new platform tags for each Python version, C-API combination
    wanted_tags = ["-".join(tup) for tup in product(pyc_apis, platforms)]
    new_tags = [tag for tag in wanted_tags if tag not in in_info_tags]
    unwanted_tags = ["-".join(tup) for tup in product(pyc_apis, to_remove)]
    updated_tags = [tag for tag in in_info_tags if tag not in unwanted_tags]
    updated_tags += new_tags
""", """    # unique Python version, C-API version combinations
    pyc_apis = list(dict.fromkeys(tag.rsplit("-", 1)[0] for tag in in_info_tags))
    updated_tags = [tag for tag in in_info_tags if tag.rsplit("-", 1)[1] not in to_remove]
    # Add new platform tags for each Python version, C-API combination
    for pyc_api, plat in product(pyc_apis, platforms):
        tag = f"{pyc_api}-{plat}"
        if tag not in in_info_tags:
            updated_tags.append(tag)
"""),
("wheeltools.py", """    if "any" in fname_tags and len(fname_tags) > 1:
        fname_tags.remove("any")
        to_remove.append("any")
        definitely_not_purelib = True
""", """    definitely_not_purelib = len(fname_tags) > 1 and "any" in fname_tags
    if definitely_not_purelib:
        to_remove.append("any")
        fname_tags = [tag for tag in fname_tags if tag != "any"]
"""),
("wheeltools.py", """    result: set[Libc] = set()
    for platform in get_wheel_platforms(filename):
        for libc in Libc:
            if platform.startswith(libc.tag_prefix):
                result.add(libc)
    if len(result) == 0:
        msg = "unknown libc used"
        raise WheelToolsError(msg)
    if len(result) > 1:
        msg = f"wheels with multiple libc are not supported, got {result}"
        raise WheelToolsError(msg)
    return result.pop()
""", """    platforms = get_wheel_platforms(filename)
    found = [libc for libc in Libc if any(p.startswith(libc.tag_prefix) for p in platforms)]
    if not found:
        msg = "unknown libc used"
        raise WheelToolsError(msg)
    if len(found) > 1:
        msg = f"wheels with multiple libc are not supported, got {found}"
        raise WheelToolsError(msg)
    (result,) = found
    return result
"""),
("wheeltools.py", """            for arch in Architecture:
                if platform.endswith(f"_{arch.value}"):
                    result.add(arch.baseline)
                    found = True
            if not found:
""", """            archs = {a.baseline for a in Architecture if platform.endswith("_" + a.value)}
            result |= archs
            if not archs:
"""),
("wheeltools.py", """        found = False
        pure_ =""", """        pure_ ="""),
("wheeltools.py", """    def skip(path: Path) -> bool:
        \"\"\"Wheel hashes every possible file.\"\"\"
        return path == record_relpath

    with record_path.open("w+", newline="", encoding="utf-8") as record_file:
        writer = csv.writer(record_file)
        for path in files():
            relative_path = path.relative_to(bdist_dir)
            if skip(relative_path):
                hash_ = ""
                size = ""
            else:
                data = path.read_bytes()
                digest = hashlib.sha256(data).digest()
                sha256 = urlsafe_b64encode(digest).rstrip(b"=").decode("ascii")
                hash_ = f"sha256={sha256}"
                size = f"{len(data)}"
            record_path_ = path.relative_to(bdist_dir).as_posix()
            writer.writerow((record_path_, hash_, size))
""", """    def entry(path: Path) -> list[str]:
        relative_path = path.relative_to(bdist_dir)
        if relative_path == record_relpath:
            return [relative_path.as_posix(), "", ""]
        with path.open("rb") as f:
            data = f.read()
        hasher = hashlib.sha256()
        hasher.update(data)
        sha256 = urlsafe_b64encode(hasher.digest()).decode("ascii").rstrip("=")
        return [str(relative_path), "sha256=" + sha256, str(len(data))]

    with open(record_path, "w", newline="", encoding="utf-8") as record_file:
        csv.writer(record_file).writerows(entry(path) for path in files())
"""),
("tools.py", """    uniques = []
    for element in sequence:
        if element not in uniques:
            uniques.append(element)
    return uniques
""", """    seen = set()
    return [x for x in sequence if not (x in seen or seen.add(x))]
"""),
("tools.py", """        if dirpath == topdir:
            subdirs = []
            dist_info = []
            for dir_ in dirnames:
                if dir_.endswith(".dist-info"):
                    dist_info.append(dir_)
                else:
                    subdirs.append(dir_)
            dirnames[:] = subdirs
            dirnames.extend(dist_info)
            del dist_info
""", """        if dirpath == topdir:
            dirnames.sort(key=lambda name: (name.endswith(".dist-info"), name))
"""),
("tools.py", """            if member.is_dir():
                # this is always rebuilt as 755 by dir2zip
                extracted_path.chmod(0o755)
            elif attr != 0:
                attr &= 511  # only keep permission bits
                attr |= 6 << 6  # at least read/write for current user
                extracted_path.chmod(attr)
""", """            if member.is_dir():
                # this is always rebuilt as 755 by dir2zip
                os.chmod(extracted_path, 0o755)
                continue
            if not attr:
                continue
            # only keep permission bits, at least read/write for current user
            os.chmod(extracted_path, (attr % 512) | 0o600)
"""),
("tools.py", """    path = Path(path).resolve()
    root = Path(root).resolve()

    return root == path or root in path.parents
""", """    return Path(path).resolve().is_relative_to(Path(root).resolve())
"""),
("sboms.py", """    for filepath, provided_by in sorted(sbom_packages.items(), key=lambda item: item[0]):
        bom_ref = (
            provided_by.purl + f"#{hashlib.sha256(filepath.encode(errors='ignore')).hexdigest()}"
        )
""", """    for filepath in sorted(sbom_packages):
        provided_by = sbom_packages[filepath]
        digest = hashlib.sha256(filepath.encode(errors="ignore"))
        bom_ref = "#".join((provided_by.purl, digest.hexdigest()))
"""),
("main_repair.py", """        abis = [requested_policy.name, *requested_policy.aliases]
        if (not args.ONLY_PLAT) and requested_policy < wheel_abi.overall_policy:
""", """        def tags_of(policy):
            return [policy.name] + list(policy.aliases)

        abis = tags_of(requested_policy)
        if requested_policy < wheel_abi.overall_policy and not args.ONLY_PLAT:
"""),
("main_repair.py", """            abis = [
                wheel_abi.overall_policy.name,
                *wheel_abi.overall_policy.aliases,
                *abis,
            ]
""", """            abis = tags_of(wheel_abi.overall_policy) + abis
"""),
("main_repair.py", """    for a in Architecture:
        suffix = f"_{a.value}"
        if plat_base.endswith(suffix):
            plat_base = plat_base[: -len(suffix)]
            requested_architecture = a
            break
""", """    requested_architecture = next(
        (a for a in Architecture if plat_base.endswith("_" + a.value)),
        None,
    )
    if requested_architecture is not None:
        plat_base = plat_base.removesuffix("_" + requested_architecture.value)
"""),
("main_show.py", """    policy_upgrades: dict[str, dict[str, Any]] = {}
    for p in policies:
        if p > winfo.overall_policy:
            entry: dict[str, Any] = {}
            p_libs = winfo.external_refs[p.name].libs
            if len(p_libs):
                entry["libs_to_eliminate"] = sorted(p_libs.keys())
            blacklist = winfo.external_refs[p.name].blacklist
            if len(blacklist):
                entry["blacklisted_symbols"] = {k: sorted(v) for k, v in sorted(blacklist.items())}
            if entry:
                policy_upgrades[p.name] = entry
""", """    def upgrade(ref):
        entry: dict[str, Any] = {}
        if ref.libs:
            entry["libs_to_eliminate"] = sorted(ref.libs)
        if ref.blacklist:
            entry["blacklisted_symbols"] = {k: sorted(ref.blacklist[k]) for k in sorted(ref.blacklist)}
        return entry

    better = [p for p in policies if winfo.overall_policy < p]
    policy_upgrades = {p.name: upgrade(winfo.external_refs[p.name]) for p in better}
    policy_upgrades = {k: v for k, v in policy_upgrades.items() if v}
"""),
]
