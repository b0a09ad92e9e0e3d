F = "export.py"
CASES = [
    ("bad", F, "                if path not in kept_symlinks:\n                    files_to_remove", "                if path not in kept_files:\n                    files_to_remove"),
    ("bad", F, "                if path not in kept_symlinks:\n                    files_to_remove", "                if path not in kept_symlinks and path not in kept_files:\n                    files_to_remove"),
    ("bad", F, "            if os.path.islink(full_path):\n                if path not in kept_symlinks:", "            if os.path.islink(path):\n                if path not in kept_symlinks:"),
    ("bad", F, "if entry.is_symlink() or entry.is_file(follow_symlinks=False):", "if entry.is_file(follow_symlinks=False):"),
    ("bad", F, "if entry.is_symlink() or entry.is_file(follow_symlinks=False):", "if entry.is_file():"),
    ("ok", F, "if entry.is_symlink() or entry.is_file(follow_symlinks=False):", "if entry.is_symlink() or entry.is_file():"),
    ("ok", F, "elif entry.is_dir():\n                        path =", "elif entry.is_dir(follow_symlinks=False):\n                        path ="),
    ("bad", F, "                        if path not in skip_recurse:\n                            to_visit.append(f\"{path}/\")", "                        to_visit.append(f\"{path}/\")"),
    ("bad", F, "to_visit.append(f\"{path}/\")", "to_visit.append(path)"),
    ("bad", F, "to_visit.append(f\"{path}/\")", "to_visit.append(f\"{entry.name}/\")"),
    ("bad", F, "while not os.path.samefile(path, self.output):\n                    os.rmdir(path)\n                    path = os.path.dirname(path)", "os.removedirs(path)"),
    ("bad", F, "while not os.path.samefile(path, self.output):\n                    os.rmdir(path)\n                    path = os.path.dirname(path)", "os.rmdir(path)"),
    ("bad", F, "while not os.path.samefile(path, self.output):\n", "while True:\n"),
    ("ok", F, "while not os.path.samefile(path, self.output):\n", "while path != self.output:\n"),
    ("bad", F, "            os.remove(path)\n            dirs_to_remove", "            os.remove(os.path.realpath(path))\n            dirs_to_remove"),
    ("bad", F, "            full_path = os.path.join(self.output, path)\n            if os.path.islink", "            full_path = path\n            if os.path.islink"),
    ("bad", F, "                if path not in kept_files:\n                    if os.path.isdir(full_path):\n                        trees", "                if path not in kept_files or path in kept_symlinks:\n                    if os.path.isdir(full_path):\n                        trees"),
    ("bad", F, "                if path not in kept_files:\n                    if os.path.isdir(full_path):\n                        trees_to_remove.append(full_path)\n                    else:\n                        files_to_remove.append(full_path)", "                if path not in kept_files and path not in kept_symlinks:\n                    files_to_remove.append(full_path)"),
    ("ok", F, "                    if os.path.isdir(full_path):\n                        trees_to_remove.append(full_path)\n                    else:\n                        files_to_remove.append(full_path)", "                    files_to_remove.append(full_path)"),
    ("bad", F, ["elif entry.is_dir():\n                        path = f\"{base}{entry.name}\"\n                        if path not in skip_recurse:\n                            to_visit.append(f\"{path}/\")"],
        ["elif entry.is_dir():\n                        path = f\"{base}{entry.name}\"\n                        yield path"]),
    ("bad", F, "                    if entry.is_symlink() or entry.is_file(follow_symlinks=False):\n                        yield f\"{base}{entry.name}\"\n                    elif entry.is_dir():", "                    if entry.is_file(follow_symlinks=False):\n                        yield f\"{base}{entry.name}\"\n                    elif entry.is_dir():"),
    ("ok", F, "            if os.path.islink(full_path):\n                if path not in kept_symlinks:\n                    files_to_remove.append(full_path)\n            else:\n                if path not in kept_files:\n                    if os.path.isdir(full_path):\n                        trees_to_remove.append(full_path)\n                    else:\n                        files_to_remove.append(full_path)",
        "            kept = kept_symlinks if os.path.islink(full_path) else kept_files\n            if path not in kept:\n                files_to_remove.append(full_path)"),
    ("ok", F, ["        to_visit = ['']\n", "os.scandir(f\"{self.output}/{base}\")", "yield f\"{base}{entry.name}\"", "path = f\"{base}{entry.name}\"", "to_visit.append(f\"{path}/\")"],
        ["        to_visit = ['']\n", "os.scandir(os.path.join(self.output, base))", "yield os.path.join(base, entry.name)", "path = os.path.join(base, entry.name)", "to_visit.append(path)"]),
    ("bad", F, "for path in self.walk_output_dir(kept_files):\n            full_path", "for path in self.walk_output_dir():\n            full_path"),
    ("bad", F, "        to_visit = ['']\n        while to_visit:\n            base = to_visit.pop()\n            with os.scandir(f\"{self.output}/{base}\")", "        to_visit = ['']\n        while to_visit:\n            base = to_visit.pop()\n            with os.scandir(f\"{self.output}/../{base}\")"),
    ("ok", F, "            os.remove(path)\n            dirs_to_remove.add(os.path.dirname(path))", "            try:\n                os.remove(path)\n            except FileNotFoundError:\n                pass\n            dirs_to_remove.add(os.path.dirname(path))"),
    ("ok", F, "        for path in files_to_remove:\n            logger.info(f\"remove extra", "        for path in sorted(files_to_remove):\n            logger.info(f\"remove extra"),
]
