X = "export.py"
F = "        exporter.filter_export_paths(lambda p: p and not p.endswith('.exe') and not p.endswith('.dll'))\n"
D = "        exporter.plain_files = {k: v for k, v in exporter.plain_files.items() if not k.endswith('/description.json')}\n"
B = "                    return '_skins_' not in exported_path\n"
K = "                    keep |= ext in ('.png', '.skn', '.txt', '.stringtable', '.json', '.ttf', '.otf')\n"
P = """                for wf in wad.files:
                    wf.path = f"{subdir}/{wf.path}"
                wad.files = [wf for wf in wad.files if filter_path(exporter, wf.path)]
"""
V = '                if patch_version == "main" or patch_version >= PatchVersion("14.4"):\n'
T = "            self._transform_exported_files(prev_exporter, self.prev_patch.version)\n"
FILT = """        def filter_path(exporter, path):
            keep = False
            for exported_path in exporter.converted_exported_paths(path):
                _, ext = os.path.splitext(exported_path)
                if ext == '.bin':
                    return '_skins_' not in exported_path
                else:
                    keep |= ext in ('.png', '.skn', '.txt', '.stringtable', '.json', '.ttf', '.otf')
            return keep
"""
CASES = [
    ("bad", X, F, F.replace(" and not p.endswith('.dll')", "")),
    ("ok", X, F, "        exporter.filter_export_paths(lambda p: bool(p) and not p.endswith(('.exe', '.dll')))\n"),
    ("ok", X, F, "        def exported(p):\n            return p is not None and os.path.splitext(p)[1] not in ('.dll', '.exe')\n        exporter.filter_export_paths(exported)\n"),
    ("bad", X, F, F.replace("not p.endswith('.exe') and not", "not p.endswith('.exe') or not")),
    ("bad", X, D, ""),
    ("bad", X, D, D.replace("'/description.json'", "'.json'")),
    ("ok", X, D, "        for k in [k for k in exporter.plain_files if k.endswith('/description.json')]:\n            del exporter.plain_files[k]\n"),
    ("ok", X, D, "        exporter.plain_files = {k: v for k, v in exporter.plain_files.items() if os.path.basename(k) != 'description.json'}\n"),
    ("bad", X, B, "                    return '_skins_' in exported_path\n"),
    ("bad", X, B, "                    keep = '_skins_' not in exported_path\n"),
    ("bad", X, K, K.replace("'.stringtable', ", "")),
    ("bad", X, K, K.replace("'.png', ", "'.png', '.dds', ").replace("'.ttf', ", "")),
    ("bad", X, K, K.replace("keep |=", "keep =").replace("'.ttf', ", "'.ttf', ").replace("'.json', ", "'.json', '.bnk', ")),
    ("bad", X, K, K.replace("keep |=", "keep =")),
    ("bad", X, P, P.replace("{subdir}/{wf.path}", "game/{wf.path}")),
    ("bad", X, V, V.replace(">=", ">")),
    ("bad", X, V, V.replace('patch_version == "main" or ', '')) if False else ("bad", X, V, V.replace("14.4", "14.5")),
    ("bad", X, "lang_match.group(1).lower()", "lang_match.group(1)"),
    ("bad", X, T, ""),
    ("bad", X, T, T.replace("self.prev_patch.version", "self.patch.version")),
    ("bad", X, [T, "            exporter.filter_exporter(prev_exporter)\n"], ["", "            exporter.filter_exporter(prev_exporter)\n" + T]),
    ("ok", X, P, """                kept = []
                for wf in wad.files:
                    wf.path = f"{subdir}/{wf.path}"
                    if filter_path(exporter, wf.path):
                        kept.append(wf)
                wad.files = kept
"""),
    ("ok", X, P, """                for wf in wad.files:
                    wf.path = subdir + "/" + wf.path
                wad.files = list(filter(lambda wf: filter_path(exporter, wf.path), wad.files))
"""),
    ("ok", X, FILT, """        kept_exts = {'.png', '.skn', '.txt', '.stringtable', '.json', '.ttf', '.otf'}
        def filter_path(exporter, path):
            exts = []
            for exported_path in exporter.converted_exported_paths(path):
                ext = os.path.splitext(exported_path)[1]
                if ext == '.bin':
                    return '_skins_' not in exported_path
                exts.append(ext)
            return any(ext in kept_exts for ext in exts)
"""),
    ("bad", X, P, P.replace("                wad.files = [", "                    break\n                wad.files = [")),
    ("bad", X, "            if path.endswith('.wad.client'):\n", "            if not path.endswith('.wad.client'):\n                break\n            else:\n"),
    ("ok", X, "            if path.endswith('.wad.client'):\n", "            if not path.endswith('.wad.client'):\n                continue\n            if True:\n"),
    ("bad", X, "            if path.endswith('.wad.client'):\n", "            if path.endswith('.client'):\n                return\n            if path.endswith('.wad.client'):\n"),
    ("bad", X, "            if not wad.files:\n                del exporter.wads[path]\n\n\n", "            if wad.files:\n                del exporter.wads[path]\n\n\n"),
    ("bad", X, F, "        exporter.filter_export_paths(lambda p: not p.endswith('.exe') and not p.endswith('.dll')) if exporter.wads else None\n"),
    ("ok", X, "        for path, wad in list(exporter.wads.items()):\n            if not wad.files:\n                del exporter.wads[path]\n\n\n", "        exporter.wads = {path: wad for path, wad in exporter.wads.items() if wad.files}\n\n\n"),
    ("bad", X, "            wad.files = [wf for wf in wad.files if predicate(wf.path)]\n            if not", "            wad.files = [wf for wf in wad.files if wf.path is None or predicate(wf.path) or len(wad.files) == 2]\n            if not"),
    ("ok", X, "            if not wad.files:\n                emptied.append(path)\n", "            if not all(predicate(wf.path) for wf in wad.files):\n                emptied.append(path)\n"),
]
