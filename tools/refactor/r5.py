"""grafting, scripts, SBOMs, show and repair commands, lddtree"""
EDITS = [
    ("repair.py", """                if not dest_dir.exists():
                    dest_dir.mkdir()
                sbom_filepaths.append(src_path)
                new_soname, new_path = copylib(src_path, dest_dir, patcher)
                soname_map[soname] = (new_soname, new_path)
                if new_path not in grafted_paths:
                    grafted_paths.append(new_path)
                replacements.append((soname, new_soname))
            if replacements:
                patcher.replace_needed(fn, *replacements)

            if len(ext_libs) > 0:
                new_fn = fn
                if _path_is_script(fn):
                    new_fn = _replace_elf_script_with_shim(match.group("name"), fn)
                    patcher.update_elf_path(fn, new_fn)
                    script_shims[fn] = new_fn
                new_rpath = Path("$ORIGIN") / os.path.relpath(dest_dir, new_fn.parent)
                append_rpath_within_wheel(new_fn, str(new_rpath), ctx.name, patcher)
""", """                dest_dir.mkdir(exist_ok=True)
                sbom_filepaths += [src_path]
                soname_map[soname] = copylib(src_path, dest_dir, patcher)
                new_soname, new_path = soname_map[soname]
                grafted_paths.setdefault(new_path)
                replacements.append((soname, new_soname))
            if replacements:
                patcher.replace_needed(fn, *replacements)

            if not ext_libs:
                continue
            new_fn = fn
            if _path_is_script(fn):
                new_fn = script_shims[fn] = _replace_elf_script_with_shim(match["name"], fn)
                patcher.update_elf_path(fn, new_fn)
            to_dest = os.path.relpath(dest_dir, new_fn.parent)
            append_rpath_within_wheel(new_fn, "$ORIGIN/" + to_dest, ctx.name, patcher)
"""),
    ("repair.py", """    grafted_paths: list[Path] = []
""", """    grafted_paths: dict[Path, None] = {}
"""),
    ("repair.py", """            needed = elf_read_dt_needed(path)  # TODO perf, we already read those at some point
            replacements = []
            for n in needed:
                if n in soname_map:
                    replacements.append((n, soname_map[n][0]))
                elif n in removed_sonames:
                    patcher.remove_needed(path, n)
            if replacements:
                patcher.set_rpath(path, "$ORIGIN")
                patcher.replace_needed(path, *replacements)
            else:
                patcher.clear_rpath(path)
""", """            _link_grafted(path, {old: new for old, (new, _) in soname_map.items()}, removed_sonames, patcher)
"""),
    ("repair.py", """def strip_symbols(""", """def _link_grafted(
    path: Path, names: dict[str, str], removed: set[str], patcher: ElfPatcher,
) -> None:
    needed = elf_read_dt_needed(path)
    for n in needed:
        if n in removed and n not in names:
            patcher.remove_needed(path, n)
    replacements = [(n, names[n]) for n in needed if n in names]
    if not replacements:
        patcher.clear_rpath(path)
        return
    patcher.set_rpath(path, "$ORIGIN")
    patcher.replace_needed(path, *replacements)


def strip_symbols("""),
    ("repair.py", """            extensions = [script_shims.get(path, path) for path in external_refs_by_fn]
            strip_symbols(itertools.chain(grafted_paths, extensions))
""", """            strip_symbols(grafted_paths)
            strip_symbols(script_shims.get(path, path) for path in external_refs_by_fn)
"""),
    ("repair.py", """import itertools
""", ""),
    ("repair.py", """            (sbom_dir / "auditwheel.cdx.json").write_text(json.dumps(sbom_data))
""", """            with (sbom_dir / "auditwheel.cdx.json").open("w") as f:
                json.dump(sbom_data, f)
"""),
    ("repair.py", """    components = path.parts
    return len(components) == 3 and components[0].endswith(".data") and components[1] == "scripts"
""", """    try:
        data, sub, _ = path.parts
    except ValueError:
        return False
    return sub == "scripts" and data[-5:] == ".data"
"""),
    ("repair.py", """    new_path = scripts_dir / orig_path.name
    orig_path.rename(new_path)

    with orig_path.open("w", newline="\\n") as f:
        f.write(_script_shim(new_path))
    orig_path.chmod(new_path.stat().st_mode)
""", """    new_path = orig_path.rename(scripts_dir / orig_path.name)
    orig_path.write_bytes(_script_shim(new_path).encode())
    shutil.copymode(new_path, orig_path)
"""),
    ("main_show.py", """            entry: dict[str, Any] = {}
            p_libs = winfo.external_refs[p.name].libs
            if len(p_libs):
                entry["libs_to_eliminate"] = sorted(p_libs.keys())
            blacklist = winfo.external_refs[p.name].blacklist
            if len(blacklist):
                entry["blacklisted_symbols"] = {k: sorted(v) for k, v in sorted(blacklist.items())}
            if entry:
                policy_upgrades[p.name] = entry
""", """            ref = winfo.external_refs[p.name]
            entry: dict[str, Any] = {
                "libs_to_eliminate": sorted(ref.libs),
                "blacklisted_symbols": {k: sorted(ref.blacklist[k]) for k in sorted(ref.blacklist)},
            }
            entry = {k: v for k, v in entry.items() if v}
            if entry:
                policy_upgrades[p.name] = entry
"""),
    ("main_repair.py", """        abis = [requested_policy.name, *requested_policy.aliases]
        if (not args.ONLY_PLAT) and requested_policy < wheel_abi.overall_policy:
""", """        abis = [requested_policy.name]
        abis.extend(requested_policy.aliases)
        if wheel_abi.overall_policy > requested_policy and not args.ONLY_PLAT:
"""),
    ("main_repair.py", """        if plat_base == "auto":
            if wheel_abi.overall_policy == policies.linux:
                # we're getting 'linux', override
                plat = policies.lowest.name
            else:
                plat = wheel_abi.overall_policy.name
        else:
            plat = f"{plat_base}_{policies.architecture.value}"
""", """        if plat_base != "auto":
            plat = "_".join((plat_base, policies.architecture.value))
        else:
            # 'linux' is overridden
            plat = max(wheel_abi.overall_policy, policies.lowest).name
"""),
    ("sboms.py", """        sbom_components.append(
            {
                "type": "library",
                "bom-ref": bom_ref,
                "name": provided_by.package_name,
                "version": provided_by.package_version,
                "purl": provided_by.purl,
            },
        )
""", """        component = dict(type="library", name=provided_by.package_name, purl=provided_by.purl)
        component["version"] = provided_by.package_version
        component["bom-ref"] = bom_ref
        sbom_components.append(component)
"""),
    ("main_lddtree.py", """    logger.info(json.dumps(ldd(args.file, ldpaths=ld_paths_from_arg(args.LDPATHS))))
""", """    ldpaths = ld_paths_from_arg(args.LDPATHS)
    tree = ldd(args.file, ldpaths=ldpaths)
    logger.info("%s", json.dumps(tree))
"""),
]
