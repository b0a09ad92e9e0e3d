F = "export.py"
PROC = "        # collect unknown hashes before resolving and filtering anything\n        unknown_hashes = sorted(exporter.unknown_hashes())\n\n        logger.info(f\"filter and transform exported files for patch {self.patch.version}\")\n        self._transform_exported_files(exporter, self.patch.version)\n"
CLEAN = '        exporter.clean_output_dir(changed_paths | {"cdragon"}, set(symlinked_paths or []))\n'
EXPORT = "        exporter.export(overwrite=overwrite)\n        if symlinked_paths:\n            self._create_symlinks(symlinked_paths)\n"
SRC = "src = os.path.relpath(os.path.realpath(os.path.join(src_output, link)), os.path.realpath(dst_dir))"
CASES = [
    ("bad", F, "unknown_hashes = sorted(exporter.unknown_hashes())", "unknown_hashes = exporter.unknown_hashes()"),
    ("ok", F, "unknown_hashes = sorted(exporter.unknown_hashes())", "unknown_hashes = sorted(set(exporter.unknown_hashes()))"),
    ("bad", F, PROC, "        self._transform_exported_files(exporter, self.patch.version)\n        unknown_hashes = sorted(exporter.unknown_hashes())\n"),
    ("bad", F, [CLEAN, EXPORT], ["", EXPORT + CLEAN]),
    ("bad", F, EXPORT, "        if symlinked_paths:\n            self._create_symlinks(symlinked_paths)\n        exporter.export(overwrite=overwrite)\n"),
    ("bad", F, CLEAN, "        exporter.clean_output_dir(changed_paths, set(symlinked_paths or []))\n"),
    ("bad", F, CLEAN, '        exporter.clean_output_dir(new_paths | {"cdragon"}, set(symlinked_paths or []))\n'),
    ("bad", F, CLEAN, '        exporter.clean_output_dir(changed_paths | {"cdragon"}, set())\n'),
    ("bad", F, CLEAN, '        exporter.clean_output_dir(changed_paths | {"cdragon"}, new_paths)\n'),
    ("ok", F, CLEAN, '        kept = set(changed_paths)\n        kept.add("cdragon")\n        exporter.clean_output_dir(kept, set(symlinked_paths) if symlinked_paths else set())\n'),
    ("bad", F, CLEAN, '        changed_paths.add("cdragon")\n        exporter.clean_output_dir(changed_paths, set(symlinked_paths or []))\n'),
    ("bad", F, CLEAN, '        if overwrite:\n    ' + CLEAN),
    ("bad", F, "exporter.export(overwrite=overwrite)", "exporter.export()"),
    ("bad", F, "            for path in sorted(new_paths):\n", "            for path in sorted(changed_paths):\n"),
    ("bad", F, "        new_paths = set(exporter.all_converted_exported_paths())\n        symlinked_paths = None\n", "        new_paths = exporter.all_converted_exported_paths()\n        symlinked_paths = None\n"),
    ("bad", F, SRC, "src = os.path.join(src_output, link)"),
    ("bad", F, SRC, "src = os.path.relpath(os.path.realpath(os.path.join(src_output, link)), dst_dir)"),
    ("ok", F, SRC, "src = os.path.relpath(os.path.join(src_output, link), dst_dir)"),
    ("bad", F, SRC, "src = os.path.relpath(os.path.realpath(os.path.join(src_output, link)), os.path.realpath(dst_output))"),
    ("ok", F, "src_output = os.path.join(os.path.dirname(self.output), str(self.prev_patch.version))", "src_output = os.path.join(self.output, '..', str(self.prev_patch.version))"),
    ("bad", F, "str(self.prev_patch.version))", "str(self.patch.version))"),
    ("bad", F, "            if os.path.lexists(dst):\n                if not os.path.islink(dst):", "            if os.path.exists(dst):\n                if not os.path.islink(dst):"),
    ("bad", F, "                if not os.path.islink(dst):\n                    raise RuntimeError(f\"symlink target already exists: {dst}\")\n", ""),
    ("ok", F, "            if os.path.lexists(dst):\n                if not os.path.islink(dst):\n                    raise RuntimeError(f\"symlink target already exists: {dst}\")\n                continue  # already set\n",
        "            if os.path.islink(dst):\n                continue\n            if os.path.exists(dst):\n                raise RuntimeError(f\"symlink target already exists: {dst}\")\n"),
    ("bad", F, "if not wf.path)\n", "if wf.path)\n"),
    ("bad", F, "yield from (wf.path_hash for wf in wad.files if not wf.path)", "yield from (wf.path_hash for wf in wad.files if not wf.path and not wf.ext)"),
    ("bad", F, "yield from (wf.path_hash for wf in wad.files if not wf.path)", "yield from (wf.offset for wf in wad.files if not wf.path)"),
    ("ok", F, "yield from (wf.path_hash for wf in wad.files if not wf.path)", "for wf in wad.files:\n                if wf.path is None:\n                    yield wf.path_hash"),
    ("bad", F, "        if symlinked_paths:\n            self._create_symlinks(symlinked_paths)", "        if symlinked_paths and overwrite:\n            self._create_symlinks(symlinked_paths)"),
    ("bad", F, "                continue  # already set", "                break  # already set"),
    ("ok", F, "            for h in unknown_hashes:\n                print(f\"{h:016x}\", file=f)", "            f.writelines(f\"{h:016x}\\n\" for h in unknown_hashes)"),
    ("ok", F, "            for path in sorted(new_paths):\n                print(path, file=f)", "            for path in sorted(new_paths):\n                f.write(path + '\\n')"),
    ("bad", F, "        yield from self.plain_files\n", ""),
    ("bad", F, "        if self.prev_patch:\n            prev_exporter", "        if symlinks:\n            prev_exporter") if False else ("bad", F, "                print(f\"{h:016x}\", file=f)", "                if h:\n                    print(f\"{h:016x}\", file=f)"),
    ("bad", F, '"cdragon"), exist_ok=True)', '"cdragon"))'),
    ("bad", F, 'os.path.join(self.output, "cdragon/files.links.txt")', 'os.path.join(self.output)'),
    ("bad", F, 'os.path.join(self.output, "cdragon/files.links.txt")', '"cdragon/files.links.txt"'),
    ("ok", F, 'os.path.join(self.output, "cdragon/files.links.txt")', 'os.path.join(self.output, "cdragon", "files.links.txt")'),
    ("bad", F, "        self.export_arena_data()\n", ""),
]
