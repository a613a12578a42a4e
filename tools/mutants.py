"""Realistic small changes, each breaking the property named first.  tools/mutate.py runs the checks against them."""
M = []


def m(id, prop, f, old, new):
    M.append((id, prop, [(f, old, new)]))


W, L, R, P, T, WT, PO, MR, SB, EU, MS, LC, AR = ("wheel_abi.py", "lddtree.py", "repair.py", "patcher.py", "tools.py", "wheeltools.py",
    "policy/__init__.py", "main_repair.py", "sboms.py", "elfutils.py", "main_show.py", "libc.py", "architecture.py")

# C01
m("c01a", "C01", PO, """            sym_name, _, _ = symbol.partition("_")
""", """            sym_name, _, _ = symbol.rpartition("_")
""")
m("c01b", "C01", PO, """                    policy_satisfied = False
            return policy_satisfied""", """                    policy_satisfied = False
                else:
                    policy_satisfied = True
            return policy_satisfied""")
m("c01c", "C01", PO, """            required_vers.setdefault(sym_name, set()).add(symbol)""", """            required_vers[sym_name] = required_vers.get(sym_name) or {symbol}""") if 0 else None
m("c01d", "C01", PO, "            for name in set(required_vers) & set(policy_sym_vers):", "            for name in (set(required_vers) & set(policy_sym_vers)) or set():\n                if name == \"ZLIB\":\n                    continue")
# C02
m("c02a", "C02", PO, """                if "ld-linux" in lib or lib in ["ld64.so.2", "ld64.so.1"]:""", """                if "ld-linux" in lib or lib in ["ld64.so.2"]:""")
m("c02b", "C02", PO, """                for dep in filter_libs(lddtree.libraries[lib].needed, whitelist):
                    if dep not in reqs:""", """                for dep in filter_libs(lddtree.libraries[lib].needed, whitelist):
                    if dep not in reqs and dep not in lddtree.needed:""")
m("c02c", "C02", PO, """                if is_subdir(lddtree.libraries[lib].realpath, wheel_path):""", """                if is_subdir(lddtree.libraries[lib].path, wheel_path):""")
m("c02d", "C02", PO, """                needed_external_libs = get_req_external(
                    set(filter_libs(lddtree.needed, whitelist)),
                    whitelist,
                )""", """                needed_external_libs = get_req_external(
                    set(filter_libs(lddtree.needed, whitelist)),
                    self.lowest.whitelist,
                )""")
m("c02e", "C02", T, "    return root == path or root in path.parents", "    return path.as_posix().startswith(root.as_posix())")
# C03
m("c03a", "C03", EU, """                if sym["st_shndx"] == "SHN_UNDEF" and sym["st_info"]["bind"] != "STB_WEAK":""", """                if sym["st_shndx"] == "SHN_UNDEF" and sym["st_info"]["bind"] == "STB_GLOBAL" and sym["st_info"]["type"] != "STT_NOTYPE":""")
m("c03b", "C03", EU, """        if intersection:
            result[lib] = sorted(intersection)
    return result""", """        if intersection:
            result[lib] = sorted(intersection)
            undef_symbols -= intersection
    return result""")
m("c03c", "C03", W, """                    d[k].blacklist[lib] = sorted(
                        set(d[k].blacklist[lib]) | set(symbols),
                    )""", """                    d[k].blacklist[lib] = sorted(
                        set(d[k].blacklist[lib]) & set(symbols),
                    )""")
m("c03d", "C03", W, "        (e.policy for e in external_refs.values() if len(e.blacklist) == 0),", "        (e.policy for e in external_refs.values() if len(e.blacklist) == 0 or not e.libs),")
# C04
m("c04a", "C04", L, """                    if data & 8 == 8:
                        ext_arch = Architecture.x86_64_v4
                        break
                    if data & 4 == 4:""", """                    if data == 8:
                        ext_arch = Architecture.x86_64_v4
                        break
                    if data & 4 == 4:""")
m("c04b", "C04", W, """                result = min(result, found_policy)
                continue""", """                result = found_policy
                continue""")
m("c04c", "C04", W, "                    found_policy = max(found_policy, policy)", "                    found_policy = policy\n                    break")
m("c04d", "C04", W, """            if dependency.realpath in machine_to_check:
                continue
            machine_to_check""", """            if dependency.realpath.name in {p.name for p in machine_to_check}:
                continue
            machine_to_check""")
m("c04e", "C04", L, """                    if prop.pr_type != "GNU_PROPERTY_X86_ISA_1_NEEDED":
                        continue""", """                    if prop.pr_type != "GNU_PROPERTY_X86_ISA_1_NEEDED":
                        break""")
# C05
m("c05a", "C05", W, """    for fn in elftree_by_fn:
        external_libs = {**get_external_libs(external_refs_by_fn[fn]), **external_libs}
""", "") 
m("c05b", "C05", W, """        (e.policy for e in external_refs.values() if len(e.libs) <= graft_lib_count),
        default=policies.linux,""", """        (e.policy for e in external_refs.values() if len(e.libs) == graft_lib_count),
        default=policies.linux,""")
m("c05c", "C05", W, """        policy_symbols = deepcopy(versioned_symbols)
        for soname in external_ref.libs:
            if soname not in external_versioned_symbols:
                continue""", """        policy_symbols = deepcopy(versioned_symbols)
        for soname in external_ref.libs:
            if soname not in external_versioned_symbols:
                break""")
m("c05d", "C05", W, """    if requested_policy_base_name is not None:
        overall_policy = min(overall_policy, graft_policy)""", """    if requested_policy_base_name not in (None, "auto"):
        overall_policy = min(overall_policy, graft_policy)""")
m("c05e", "C05", W, "            if realpath and realpath not in result:", "            if realpath and libname not in result.values():")
m("c05f", "C05", W, """        ucs_policy,
        pyfpe_policy,
        blacklist_policy,
        machine_policy,
    )

    if""", """        ucs_policy if data.uses_ucs2_symbols else pyfpe_policy,
        blacklist_policy,
        machine_policy,
    )

    if""")
# C06
m("c06a", "C06", MR, "        if requested_policy > wheel_abi.machine_policy:", "        if requested_policy > wheel_abi.machine_policy and not args.ONLY_PLAT:")
m("c06b", "C06", MR, "        if (not args.ONLY_PLAT) and requested_policy < wheel_abi.overall_policy:", "        if (not args.ONLY_PLAT) and requested_policy != wheel_abi.overall_policy:")
m("c06c", "C06", MR, """                *wheel_abi.overall_policy.aliases,
                *abis,""", """                *wheel_abi.overall_policy.aliases,
                requested_policy.name,""")
m("c06d", "C06", MR, "                plat = policies.lowest.name", "                plat = policies.highest.name")
m("c06e", "C06", MR, "        if requested_policy > wheel_abi.sym_policy:", "        if requested_policy > wheel_abi.sym_policy and plat_base != \"auto\":")
# C07
m("c07a", "C07", WT, """    fname_tags = [tag for tag in original_fname_tags if tag not in to_remove]
    fname_tags = unique""", """    fname_tags = [tag for tag in original_fname_tags if tag not in to_remove or tag == "any"]
    fname_tags = unique""")
m("c07b", "C07", WT, """        "prefix": wheel_fname.rsplit("-", maxsplit=1)[0],""", """        "prefix": "-".join(wheel_fname.split("-")[:4]),""")
m("c07c", "C07", WT, """    new_tags = [tag for tag in wanted_tags if tag not in in_info_tags]
    unwanted_tags""", """    new_tags = [tag for tag in wanted_tags if tag.split("-")[-1] not in {t.split("-")[-1] for t in in_info_tags}]
    unwanted_tags""")
m("c07d", "C07", WT, """            del info["Root-Is-Purelib"]
            info["Root""", """            info["Root""")
m("c07e", "C07", WT, """    pyc_apis = unique_by_index(pyc_apis)
""", "    pyc_apis = pyc_apis[:1] + pyc_apis[-1:] if len(pyc_apis) > 1 else pyc_apis\n    pyc_apis = unique_by_index(pyc_apis)\n")
# C08
m("c08a", "C08", R, """                if n in soname_map:
                    replacements.append((n, soname_map[n][0]))""", """                if n in soname_map and soname_map[n][1] != path:
                    replacements.append((n, soname_map[n][0]))
                    break""")
m("c08b", "C08", R, "            ext_libs = v[abis[0]].libs", "            ext_libs = v[abis[-1]].libs")
m("c08c", "C08", R, """            if replacements:
                patcher.set_rpath(path, "$ORIGIN")
                patcher.replace_needed(path, *replacements)
            else:
                patcher.clear_rpath(path)""", """            if len(replacements) > 1:
                patcher.set_rpath(path, "$ORIGIN")
                patcher.replace_needed(path, *replacements)
            elif replacements:
                patcher.clear_rpath(path)
                patcher.replace_needed(path, *replacements)
            else:
                patcher.clear_rpath(path)""")
m("c08d", "C08", R, """                new_rpath = Path("$ORIGIN") / os.path.relpath(dest_dir, new_fn.parent)""", """                new_rpath = Path("$ORIGIN") / Path(*[".."] * min(2, len(new_fn.parent.parts))) / dest_dir""")
m("c08e", "C08", R, """                if src_path is None:
                    msg = (""", """                if src_path is None and fn.suffix != ".so":
                    continue
                if src_path is None:
                    msg = (""")
# C09
m("c09a", "C09", "hashfile.py", """    while len(buf) > 0:
        hasher.update(buf)
        buf = afile.read(blocksize)""", """    if len(buf) > 0:
        hasher.update(buf)
        buf = afile.read(blocksize)""")
m("c09b", "C09", R, "        dest_path.chmod(statinfo.st_mode | stat.S_IWRITE)", "        dest_path.chmod(stat.S_IRUSR | stat.S_IWRITE | stat.S_IXUSR)")
m("c09c", "C09", R, "    shutil.copy2(src_path, dest_path)", "    shutil.copyfile(src_path, dest_path)")
m("c09d", "C09", R, """    patcher.set_soname(dest_path, new_soname)

    return""", """    if new_soname != src_name:
        patcher.set_soname(dest_path, new_soname)

    return""")
m("c09e", "C09", R, """if not base.endswith(f"-{shorthash}") else src_name""", """if shorthash not in base else src_name""")
# C10
m("c10a", "C10", R, """        rpath = rpath.replace(f"${{{token}}}", target)  # ${TOKEN}""", """        rpath = rpath.replace(f"${{{token}}}", target, 1)  # ${TOKEN}""")
m("c10b", "C10", R, """    rpaths = unique_by_index([*rpaths, rpath])""", """    rpaths = [*rpaths, rpath] if rpath not in rpaths else rpaths""")
m("c10c", "C10", R, """    system_lib_dir = "lib64" if platform""", """    system_lib_dir = "lib" if platform""")
m("c10d", "C10", R, """    if not Path(full_rpath_entry).is_absolute():""", """    if not rpath.startswith(("/", "$")):""")
# C11
m("c11a", "C11", WT, "        return path == record_relpath", "        return path.name == record_relpath.name")
m("c11b", "C11", WT, """                size = f"{len(data)}\"""", """                size = f"{len(data)}" if data else \"\"""")
m("c11c", "C11", WT, """.rstrip(b"=").decode("ascii")""", """.replace(b"==", b"").decode("ascii")""")
m("c11d", "C11", WT, """        writer = csv.writer(record_file)
""", """        writer = csv.writer(record_file, quoting=csv.QUOTE_NONE, escapechar="\\\\")
""")
# C12
m("c12a", "C12", T, "                attr |= 6 << 6  # at", "                attr |= 4 << 6  # at")
m("c12b", "C12", T, """        date_time_args = (1980, 1, 1, 0, 0, 0)
""", """        date_time_args = (1980, *date_time_args[1:])
""")
m("c12c", "C12", T, """                zinfo.date_time = date_time_args
                z.writestr(zinfo, b"")""", """                z.writestr(zinfo, b"")""")
m("c12d", "C12", T, """        filenames.sort()
""", """        filenames.sort(key=str.lower)
""")
m("c12e", "C12", T, """            and dirpath.parent == topdir
""", "")
m("c12f", "C12", T, """                attr &= 511  # only keep permission bits
                attr |= 6 << 6  # at least read/write for current user
""", """                attr &= 511  # only keep permission bits
                if not attr & 0o400:
                    attr |= 6 << 6  # at least read/write for current user
""")
# C13
m("c13a", "C13", MR, """        if not wheel_dir.exists():
            wheel_dir.mkdir(parents=True)
""", """        if not wheel_dir.exists():
            wheel_dir.mkdir(parents=True)
        os.chdir(wheel_dir)
""") if 0 else None
m("c13b", "C13", "tmpdirs.py", """        os.chdir(self._pwd)
        self._tmpdir.__exit__(exc, value, tb)""", """        if exc is None:
            os.chdir(self._pwd)
        self._tmpdir.__exit__(exc, value, tb)""")
# C14
m("c14a", "C14", L, """        + rpaths
        + runpaths
        + ldpaths["env"]
        + ldpaths["runpath"]""", """        + rpaths
        + runpaths
        + ldpaths["runpath"]
        + ldpaths["env"]""")
m("c14b", "C14", L, """            (len(os_abis) == 1 or any(os_abis.issubset(x) for x in compat_sets))""", """            (len(os_abis) == 1 or any(os_abis & x for x in compat_sets))""")
m("c14c", "C14", L, """            and self._elf_little_endian == other._elf_little_endian
""", "")
m("c14d", "C14", L, """                if platform.is_compatible(_get_platform(libelf)):
                    return target, path
""", """                if platform.is_compatible(_get_platform(libelf)):
                    return target, path
                break
""")
m("c14e", "C14", L, """        ldpaths["rpath"] = rpaths
        ldpaths["runpath"] = runpaths
        log""", """        ldpaths["rpath"] = rpaths
        ldpaths["runpath"] = runpaths or rpaths
        log""")
# C15
m("c15a", "C15", L, """        elif re.search(ORIGIN_RE, ldpath):""", """        elif re.match(ORIGIN_RE, ldpath):""")
m("c15b", "C15", L, """                line = input_line.split("#", 1)[0].strip()""", """                line = input_line.strip()
                if line.startswith("#"):
                    continue""")
m("c15c", "C15", L, "    return [p for p in dedupe(ldpaths) if os.path.isdir(p)]", "    return [p for p in dedupe(ldpaths) if os.path.exists(p)]")
m("c15d", "C15", L, 'ORIGIN_RE = re.compile(r"\\$(ORIGIN|\\{ORIGIN\\})")', 'ORIGIN_RE = re.compile(r"\\$\\{?ORIGIN\\}?")')
# C16
m("c16a", "C16", WT, """    if missed or len(result) > 1:""", """    if len(result) > 1:""")
m("c16b", "C16", WT, """            if platform.startswith(libc.tag_prefix):
                result.add(libc)""", """            if platform.startswith(libc.tag_prefix):
                result.add(libc)
                return libc""")
m("c16c", "C16", WT, """                    result.add(arch.baseline)
                    found = True""", """                    result.add(arch)
                    found = True""")
m("c16d", "C16", WT, """        pure = pure and pure_
""", """        pure = pure_
""")
# C17
m("c17a", "C17", PO, """                symbol_versions_arch[prefix].update(
                    policy["symbol_versions"][arch][prefix],
                )""", """                symbol_versions_arch[prefix] = policy_symbol_versions""") 
m("c17b", "C17", PO, """            if arch.value in policy["symbol_versions"] or""", """            if base_arch in policy["symbol_versions"] or""")
m("c17c", "C17", PO, """            symbol_versions_arch = symbol_versions.get(arch, defaultdict(set))
""", """            symbol_versions_arch = symbol_versions.setdefault(policy["name"], defaultdict(set))
""")
m("c17d", "C17", PO, "p.name == name or name in p.aliases]", "p.name == name or name in p.aliases[:1]]")
# C18
m("c18a", "C18", PO, "android_api_level(p.name) <= api_level:", "android_api_level(p.name) < api_level:")
m("c18b", "C18", P, "android_api_level(self.platform) < 24:", "android_api_level(self.platform) <= 24:")
m("c18c", "C18", P, """                if self.platform.startswith("android"):
                    # Android""", """                if self.platform.startswith("android") and update_info.soname is None:
                    # Android""")
m("c18d", "C18", PO, """            platforms = get_wheel_platforms(wheel_fn.name)
            if len(platforms) != 1:""", """            platforms = get_wheel_platforms(wheel_fn.name)
            if len({android_api_level(p) for p in platforms}) != 1:""")
m("c18e", "C18", PO, "                    self._policies = [self.linux, replace(p, name=platform)]", "                    self._policies = [self.linux, replace(p, name=f\"android_{api_level}_{base_arch}\")]")
# C19
m("c19a", "C19", P, """        update_info.rpath = None
        update_info.clear_rpath = True""", """        update_info.clear_rpath = True""")
m("c19b", "C19", P, "            if update_info.rpath is not None:\n                return update_info.rpath", "            if update_info.rpath:\n                return update_info.rpath")
m("c19c", "C19", P, "        replaced_sonames = set(chain.from_iterable(replaced))", "        replaced_sonames = {old for old, _ in replaced}")
m("c19d", "C19", P, "            self._updates[new_key] = self._updates.pop(old_key)", "            self._updates[new_key] = self._updates[old_key]")
m("c19e", "C19", P, """        update_info.replace_needed.extend(old_new_pairs)""", """        update_info.replace_needed = [*dict(update_info.replace_needed + list(old_new_pairs)).items()][-8:] if len(old_new_pairs) > 1 else list(old_new_pairs)""")
# C20
m("c20a", "C20", L, "        if realpath is not None and any(fnmatch(str(realpath), e) for e in exclude):", "        if fullpath is not None and any(fnmatch(str(fullpath), e) for e in exclude):")
m("c20b", "C20", L, """            log.info("Excluding %s", realpath)
            _excluded_libs.add(soname)
            continue""", """            log.info("Excluding %s", realpath)
            continue""")
m("c20c", "C20", L, """dependency = ldd(realpath, root, prefix, ldpaths, fullpath, exclude, _all_libs)""", """dependency = ldd(realpath, root, prefix, ldpaths, fullpath, exclude if _first else frozenset(), _all_libs)""")
m("c20d", "C20", L, """        if any(fnmatch(soname, e) for e in exclude):
            log.info("Excluding %s", soname)
            _excluded_libs.add(soname)
            continue""", """        if any(fnmatch(soname, e) for e in exclude):
            log.info("Excluding %s", soname)
            _excluded_libs.add(soname)
            break""")
# C21
m("c21a", "C05", W, "        policy_symbols = deepcopy(versioned_symbols)", "        policy_symbols = versioned_symbols.copy()")
m("c21c", "C21", L, """                if ldpaths is None:
                    ldpaths = load_ld_paths(libc).copy()
                # TODO""", """                if ldpaths is None:
                    ldpaths = load_ld_paths(libc)
                # TODO""")
m("c21d", "C02", W, """        p.name: ExternalReference({}, {}, p) for p in policies
    }

    for fn in elftree_by_fn:
        update(external_refs, external_refs_by_fn[fn])
""", """        p.name: ExternalReference({}, {}, p) for p in policies
    }

    for n, fn in enumerate(elftree_by_fn):
        if n == 0:
            external_refs = dict(external_refs_by_fn[fn])
        else:
            update(external_refs, external_refs_by_fn[fn])
""")
# C22
m("c22a", "C22", W, """                    elif libc != elftree.libc:
                        log.warning("ignoring: %s with %s libc", so_name, elftree.libc)
                        continue""", """                    elif libc != elftree.libc:
                        log.warning("ignoring: %s with %s libc", so_name, elftree.libc)
                        platform_wheel = True
                        continue""")
m("c22b", "C22", W, """                    shared_libraries_with_invalid_machine.append(so_name)
                    log.warning("ignoring: %s with %s architecture", so_name, elf_arch)
                    continue

                if""", """                    log.warning("ignoring: %s with %s architecture", so_name, elf_arch)
                    continue

                if""")
m("c22c", "C22", W, """            if any(p.name == "purelib" for p in fn.parents):""", """            if fn.parent.name == "purelib":""")
m("c22d", "C22", MR, "            if is_pure_python and args.ALLOW_PURE_PY_WHEEL:", "            if args.ALLOW_PURE_PY_WHEEL:")
m("c22e", "C22", MS, "        if is_pure_python and args.ALLOW_PURE_PY_WHEEL:", "        if args.ALLOW_PURE_PY_WHEEL:")
# C23
m("c23a", "C23", T, """        if self.env_default:
            if type:""", """        if self.env_default and default is None:
            if type:""")
m("c23b", "C23", T, "            default = self.env_default\n        if", "            default = default or self.env_default\n        if")
# C24
m("c24a", "C24", SB, """        sbom_dependencies[0]["dependsOn"].append(bom_ref)""", """        sbom_dependencies[0]["dependsOn"] = [bom_ref]""")
m("c24b", "C24", R, """                sbom_filepaths.append(src_path)
""", """                if src_path.name == soname:
                    sbom_filepaths.append(src_path)
""")
m("c24c", "C24", R, """            wheel_fname=output_wheel.name,""", """            wheel_fname=wheel_fname,""")
m("c24d", "C24", R, "    if sbom_data:\n" if 0 else "            sbom_dir = Path(dist_info_dirs[0], \"sboms\")", "            sbom_dir = Path(\"sboms\")")
# C26
m("c26a", "C26", EU, """            and sym["st_shndx"] != "SHN_UNDEF"
            and sym["st_info"]["type"] == "STT_FUNC"
        ):
            return True""", """            and sym["st_info"]["type"] == "STT_FUNC"
        ):
            return True""")
m("c26b", "C26", EU, """    modname = fn.name.split(".", 1)[0]""", """    modname = fn.name.rsplit(".", 1)[0]""")
m("c26c", "C26", EU, """                "PyUnicodeUCS2_" in sym.name""", """                sym.name.startswith("PyUnicodeUCS2_")""")
m("c26d", "C26", EU, """                and sym["st_info"]["type"] in ("STT_FUNC", "STT_NOTYPE")""", """                and sym["st_info"]["type"] == "STT_FUNC\"""")
m("c26e", "C26", W, "                    if py_ver == 2:\n                        uses_ucs2_symbols |= any", "                    if py_ver == 2:\n                        uses_ucs2_symbols = any")
m("c26f", "C26", EU, """            for vernaux in verneed_iter:
                yield (verneed.name, vernaux.name)""", """            yield from {verneed.name: vernaux.name for vernaux in verneed_iter}.items()""")
m("c26g", "C26", EU, """            if verneed.name.startswith("ld-linux") or""", """            if verneed.name.startswith("ld-") or""")
# C27
m("c27a", "C27", R, "    orig_path.chmod(new_path.stat().st_mode)\n", "    orig_path.chmod(0o755)\n")
m("c27b", "C27", R, "                    patcher.update_elf_path(fn, new_fn)\n", "")
m("c27c", "C27", R, """    return len(components) == 3 and components""", """    return len(components) >= 3 and components""")
m("c27d", "C27", R, """                new_rpath = Path("$ORIGIN") / os.path.relpath(dest_dir, new_fn.parent)""", """                new_rpath = Path("$ORIGIN") / os.path.relpath(dest_dir, fn.parent)""")
m("c27e", "C27", R, """            extensions = [script_shims.get(path, path) for path in external_refs_by_fn]""", """            extensions = list(external_refs_by_fn)""")
# C28
m("c28a", "C28", L, """            elif soname == "libc.so.6" or soname.startswith(("ld-linux-", "ld64.so.")):""", """            elif soname.startswith(("libc.so.6", "ld-linux-")):""")
m("c28b", "C28", L, """                valid_python = tuple(f"3{minor}" for minor in range(11, 100))""", """                valid_python = tuple(f"3{minor}" for minor in range(10, 100))""")
m("c28c", "C28", L, """                libc = Libc.MUSL if soname.startswith("ld-musl-") else Libc.GLIBC
""", """                libc = Libc.MUSL if "musl" in soname else Libc.GLIBC
""")
m("c28d", "C28", L, """                if libc != Libc.MUSL:
                    msg = f"found""", """                if libc != Libc.MUSL and interpreter is None:
                    msg = f"found""")
# C29
m("c29a", "C29", MS, """        if p > winfo.overall_policy:
            entry""", """        if p > winfo.sym_policy:
            entry""")
m("c29b", "C29", MS, """        "pyfpe": winfo.pyfpe_policy == policies.linux,""", """        "pyfpe": winfo.overall_policy == policies.linux and winfo.pyfpe_policy < policies.highest and winfo.ucs_policy == policies.highest,""")
m("c29c", "C29", MS, """            if entry:
                policy""", """            if p_libs:
                policy""")
m("c29d", "C29", MS, """winfo.versioned_symbols.items())},""", """winfo.versioned_symbols.items()) if not k.startswith("libm.")},""")
# C30
m("c30a", "C30", W, """                    needed_new -= soname_all
""", """                    needed_new.clear()
""")
m("c30b", "C30", W, """        if all(library.realpath is not None for library in executable.libraries.values())
    ]""", """        if any(library.realpath is not None for library in executable.libraries.values())
    ]""")
m("c30c", "C30", W, "        for candidate in resolved_executables:\n            for library", "        for candidate in resolved_executables[:1]:\n            for library")
m("c30d", "C30", W, "            if fn.name not in needed_libs:", "            if fn.name not in needed_libs or not full_elftree:")
m("c30e", "C30", W, """            for lib in elf.needed
        }""", """            for lib in elf.libraries
        }""")
m("c30f", "C30", W, "for executable in itertools.chain(py_elf_trees.values(), nonpy_elftree.values())", "for executable in py_elf_trees.values()")
