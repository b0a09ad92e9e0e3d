X, M = "export.py", "__main__.py"
CASES = [
    ("bad", X, "return exporters[::-1]", "return exporters"),
    ("bad", X, "zip(patches, patches[1:] + [None])", "zip(patches, patches[1:])"),
    ("bad", X, "zip(patches, patches[1:] + [None])", "zip(patches, [None] + patches[:-1])"),
    ("bad", X, "            if not os.path.isdir(os.path.join(output, path)):\n                continue\n", ""),
    ("bad", X, "if not os.path.isdir(os.path.join(output, path)):", "if not os.path.isdir(path):"),
    ("bad", X, "for patch in storage.patches(stored=True):", "for patch in storage.patches():"),
    ("bad", X, "patch.version != 'main' and patch.version < first", "patch.version != 'main' and patch.version <= first"),
    ("bad", X, "if first and patch.version != 'main' and patch.version < first:", "if first and patch.version < first:"),
    ("bad", X, "                break\n            if patch.version in versions:", "                continue\n            if patch.version in versions:"),
    ("bad", X, "        else:\n            raise ValueError(f\"versions not found: {versions!r}\")", "        else:\n            pass"),
    ("bad", X, "                if not versions:\n                    break\n", ""),
    ("bad", X, "                versions.remove(patch.version)\n", ""),
    ("bad", X, "            return []  # no version directory found", "            pass"),
    ("bad", X, "patch_output = os.path.join(output, str(patch.version))", "patch_output = output"),
    ("bad", X, "symlinks=symlinks if previous_patch else False", "symlinks=symlinks"),
    ("bad", X, "symlinks=symlinks if previous_patch else False", "symlinks=bool(previous_patch)"),
    ("bad", X, "exporters.append(cls(patch_output, patch, previous_patch, ", "exporters.append(cls(patch_output, patch, None, "),
    ("bad", X, "self.create_symlinks = prev_patch is not None", "self.create_symlinks = False"),
    ("bad", X, "            if symlinks and not prev_patch:\n                raise ValueError(\"cannot create symlinks without a previous patch\")\n", ""),
    ("bad", X, "        if symlinks is None:", "        if not symlinks:"),
    ("bad", X, "            except (ValueError, TypeError):\n                continue\n            versions", "            except (ValueError, TypeError):\n                break\n            versions"),
    ("bad", M, "symlinks = bool(args.symlinks)", "symlinks = not args.symlinks"),
    ("bad", M, "overwrite = not args.lazy", "overwrite = args.lazy"),
    ("bad", M, "PatchVersion(args.first), symlinks=symlinks)", "symlinks=symlinks)"),
    ("bad", M, "PatchVersion(args.first), symlinks=symlinks)", "PatchVersion(args.first))"),
    ("bad", M, "it = storage.patches(stored=True)", "it = storage.patches()"),
    ("bad", M, "                    previous_patch = next(it, None)\n", "                    previous_patch = v\n"),
    ("bad", M, "if v.version == patch.version:", "if v.version != patch.version:"),
    ("bad", M, "storage.patch(args.previous, stored=True)", "storage.patch(args.previous)"),
    ("bad", M, "storage.patch(None if args.patch == 'latest' else args.patch)", "storage.patch(None if args.patch == 'latest' else args.patch, stored=True)"),
    ("bad", M, "        if args.previous == 'none':\n            previous_patch = None\n        elif", "        if"),
    ("bad", M, "            if previous_patch is None:\n                parser.error(\"cannot guess previous patch\")\n", ""),
    ("bad", M, "os.path.join(args.output, str(patch.version)), patch, previous_patch", "os.path.join(args.output, str(previous_patch.version)), patch, previous_patch"),
    ("bad", M, "previous_patch, symlinks=symlinks)\n        exporter.process(overwrite=overwrite)", "previous_patch, symlinks=symlinks)\n        exporter.process()"),
    ("bad", M, "        for exporter in exporters:\n            exporter.process(overwrite=overwrite)", "        exporters[0].process(overwrite=overwrite)"),
    ("ok", X, "return exporters[::-1]", "exporters.reverse()\n        return exporters"),
    ("ok", X, "return exporters[::-1]", "return list(reversed(exporters))"),
    ("ok", X, '''        exporters = []
        for patch, previous_patch in zip(patches, patches[1:] + [None]):
            patch_output = os.path.join(output, str(patch.version))
            exporters.append(cls(patch_output, patch, previous_patch, symlinks=symlinks if previous_patch else False))
        return exporters[::-1]
''', '''        exporters = []
        previous_patch = None
        for patch in reversed(patches):
            patch_output = os.path.join(output, str(patch.version))
            exporters.append(cls(patch_output, patch, previous_patch, symlinks=symlinks if previous_patch else False))
            previous_patch = patch
        return exporters
'''),
    ("ok", X, '''        versions = set()
        for path in os.listdir(output):
            if not os.path.isdir(os.path.join(output, path)):
                continue
            try:
                version = PatchVersion(path)
            except (ValueError, TypeError):
                continue
            versions.add(version)
''', '''        versions = set()
        for path in os.listdir(output):
            if os.path.isdir(os.path.join(output, path)):
                try:
                    versions.add(PatchVersion(path))
                except (ValueError, TypeError):
                    pass
'''),
    ("ok", X, '''            if first and patch.version != 'main' and patch.version < first:
                break
            if patch.version in versions:
                patches.append(patch)
                versions.remove(patch.version)
                if not versions:
                    break
''', '''            if first and not (patch.version == 'main' or patch.version >= first):
                break
            if patch.version not in versions:
                continue
            patches.append(patch)
            versions.discard(patch.version)
            if len(versions) == 0:
                break
'''),
    ("ok", X, '''        if symlinks is None:
            self.create_symlinks = prev_patch is not None
        else:
            if symlinks and not prev_patch:
                raise ValueError("cannot create symlinks without a previous patch")
            self.create_symlinks = symlinks
''', '''        if symlinks is None:
            symlinks = prev_patch is not None
        elif symlinks and prev_patch is None:
            raise ValueError("cannot create symlinks without a previous patch")
        self.create_symlinks = symlinks
'''),
    ("ok", M, '''            it = storage.patches(stored=True)
            for v in it:
                if v.version == patch.version:
                    previous_patch = next(it, None)
                    break
            else:
                previous_patch = None
''', '''            previous_patch = None
            found = False
            for v in storage.patches(stored=True):
                if found:
                    previous_patch = v
                    break
                if v.version == patch.version:
                    found = True
'''),
    ("ok", M, '''            it = storage.patches(stored=True)
            for v in it:
                if v.version == patch.version:
                    previous_patch = next(it, None)
                    break
            else:
                previous_patch = None
''', '''            stored = list(storage.patches(stored=True))
            previous_patch = None
            for v, w in zip(stored, stored[1:]):
                if v.version == patch.version:
                    previous_patch = w
                    break
'''),
    ("bad", "export.py", "if first and patch.version != 'main' and", "if patch.version != 'main' and"),
    ("ok", "export.py", "            if first and patch.version != 'main' and", "            if first is not None and patch.version != 'main' and"),
]
