M = "__main__.py"
CASES = [
    ("bad", M, "subparsers.add_parser('bin-dump',", "subparsers.add_parser('dump-bin',"),
    ("bad", M, "replace('-', '_')}", "replace('-', '')}"),
    ("bad", M, "def command_skn_extract(", "def command_extract_skn("),
    ("ok", M, "dest='langs', action='store_false', default=True,", "dest='langs', action='store_false',"),
    ("bad", M, "    component_parser.add_argument('--no-lang', dest='langs', action='store_false', default=True,\n                                  help=\"ignore language projects from solutions\")\n    component_parser.add_argument('--lang', dest='langs', nargs='*',\n                                  help=\"use projects from solutions in given languages (default: all)\")",
     "    component_parser.add_argument('--lang', dest='langs', nargs='*',\n                                  help=\"use projects from solutions in given languages (default: all)\")\n    component_parser.add_argument('--no-lang', dest='langs', action='store_false', default=True,\n                                  help=\"ignore language projects from solutions\")"),
    ("bad", M, "component.download(langs=args.langs)", "component.download()"),
    ("bad", M, "component.download(langs=args.langs)", "component.download(langs=args.lang)"),
    ("bad", M, "elem.relpaths(langs=args.langs) if args.relative", "elem.relpaths() if args.relative"),
    ("bad", M, "if args.relative else", "if not args.relative else"),
    ("bad", M, "        for path in it:\n            print(path)", "        for path in it:\n            print(path)\n            break"),
    ("bad", M, "args.type == 'patch' or ", ""),
    ("bad", M, "if args.type == 'patch' or args.type in (e.name for e in patch.elements)", "if args.type == 'patch' or all(e.name == args.type for e in patch.elements)"),
    ("bad", M, "patches(stored=args.stored)", "patches(stored=not args.stored)"),
    ("bad", M, "choices={'patch', 'game', 'client'}", "choices={'patch', 'game', 'lcu'}"),
    ("bad", M, "if args.unknown == 'yes':\n        pass  # don't filter\n    elif args.unknown == 'only':\n        wad.files = [wf for wf in wad.files if wf.path is None]", "if args.unknown == 'yes':\n        pass  # don't filter\n    elif args.unknown == 'only':\n        wad.files = [wf for wf in wad.files if wf.path is not None]"),
    ("bad", M, "choices=('yes', 'only', 'no'), default='yes'", "choices=('yes', 'only', 'no'), default='no'"),
    ("bad", M, "choices=('yes', 'only', 'no'), default='yes'", "choices=('yes', 'only', 'none'), default='yes'"),
    ("bad", M, "if any(wf.path is not None and fnmatch.fnmatchcase(wf.path, p) for p in args.pattern)", "if all(wf.path is not None and fnmatch.fnmatchcase(wf.path, p) for p in args.pattern)"),
    ("bad", M, "fnmatch.fnmatchcase(wf.path, p) for p in args.pattern", "fnmatch.fnmatch(p, wf.path) for p in args.pattern"),
    ("bad", M, "action='append'", "action='store'"),
    ("bad", M, "    wad.guess_extensions()\n    wad.extract(args.output, overwrite=not args.lazy)", "    wad.extract(args.output, overwrite=not args.lazy)\n    wad.files = []"),
    ("bad", M, "overwrite=not args.lazy)", "overwrite=args.lazy)"),
    ("bad", M, "    if not args.output:\n        args.output = os.path.splitext(args.wad)[0]", "    if not args.output:\n        args.output = os.path.splitext(os.path.basename(args.wad))[0]"),
    ("bad", M, "    if not os.path.isfile(args.wad):\n        parser.error(\"WAD file does not exist\")\n    if not", "    if not"),
    ("bad", M, "and not os.path.isdir(args.output)", "and os.path.isdir(args.output)"),
    ("bad", M, "        if \"numbers\" in method_names:\n            guesser.substitute_numbers()\n        if \"basenames\" in method_names:\n            guesser.substitute_basenames()\n        if \"words\" in method_names:\n            guesser.substitute_basename_words()\n        if \"ext\" in method_names:\n            guesser.substitute_extensions()\n        if \"regionlang\"", "        if \"basenames\" in method_names:\n            guesser.substitute_basenames()\n        if \"words\" in method_names:\n            guesser.substitute_basename_words()\n        if \"ext\" in method_names:\n            guesser.substitute_extensions()\n        if \"regionlang\""),
    ("bad", M, "if \"skin-num\" in method_names", "if \"skin-nums\" in method_names"),
    ("bad", M, "if name not in (\"basenames\", \"words\")]", "if name not in (\"basenames\", \"word\")]"),
    ("bad", M, "s.strip() for s in args.methods.split(',')", "s for s in args.methods.split(',')"),
    ("bad", M, "                parser.error(f\"unknown guessing method: {name}\")", "                continue"),
    ("bad", M, "if p.endswith('.wad') or p.endswith('.wad.client')", "if p.endswith('.wad')"),
    ("bad", M, "            elements = component.elements\n        else:\n            elements = [component]\n        for", "            elements = component.elements[:1]\n        else:\n            elements = [component]\n        for"),
    ("bad", M, "            wads.append(Wad(path_or_component))\n            continue", "            continue"),
    ("bad", M, "storage.patch(None if args.patch == 'latest' else args.patch)", "storage.patch(args.patch)"),
    ("bad", M, "if args.previous == 'none':", "if args.previous == 'full':"),
    ("bad", M, "storage.patch(args.previous, stored=True)", "storage.patch(args.patch, stored=True)"),
    ("bad", M, "if v.version == patch.version:", "if v.version != patch.version:"),
    ("bad", M, "previous_patch = next(it, None)", "previous_patch = v"),
    ("bad", M, "const='none'", "const='full'"),
    ("bad", M, "patch, previous_patch, symlinks=symlinks)", "patch, previous_patch)"),
    ("bad", M, "PatchVersion(args.first), symlinks=symlinks)", "PatchVersion(args.first))"),
    ("bad", M, "            parser.error(\"--from cannot be used when providing a patch\")", "            pass"),
    ("bad", M, "    if args.json:", "    if not args.json:"),
    ("bad", M, "        binfile.dump(sys.stdout)", "        binfile.dump(sys.stderr)"),
    ("bad", M, "entry[\"name\"] + \".obj\"", "entry[\"name\"]"),
    ("bad", M, "        args.output = os.path.splitext(args.skn)[0]", "        args.output = args.skn"),
    ("bad", M, "    if args.patchline is not None:\n        if", "    if path is not None and args.patchline is not None:\n        if"),
    ("bad", M, "default_path if args.storage is None else args.storage", "args.storage if default_path is None else default_path"),
    ("bad", M, "            parser.error(\"--patchline is only supported for 'patcher' storage\")", "            pass"),
    ("bad", M, "choices=[\"pbe\", \"live\"]", "choices=[\"PBE\", \"live\"]"),
    ("bad", M, "subparsers.add_parser('versions', parents=[storage_parser],", "subparsers.add_parser('versions',"),
    ("bad", "storage.py", "    if version == '':\n        version, latest = None, True", "    if version == '':\n        version, latest = None, False"),
    ("bad", "storage.py", "    elif version.endswith('.'):\n        version, latest = version.rstrip('.'), True", "    elif version.endswith('.'):\n        version, latest = version, True"),
    ("bad", "storage.py", "[0-9]+(?:\\.[0-9]+\\.?)*|main)$'", "[0-9](?:\\.[0-9]+\\.?)*|main)$'"),
    ("bad", "storage.py", "    if not m:\n        raise ValueError(f\"invalid component: {component}\")", "    if not m:\n        return None"),
    ("bad", M, "    if isinstance(component, Patch):\n        return list(component.elements)", "    if isinstance(component, Patch):\n        return list(component.elements)[:1]"),
    ("bad", "rads.py", "    def relpaths(self, langs=True):", "    def relpaths(self):"),
    ("bad", M, "    if hasattr(args, 'storage'):", "    if hasattr(args, 'patchline') and args.patchline:"),
    ("bad", M, "        if args.previous == 'none':\n            previous_patch = None\n        elif args.previous:", "        if args.previous:"),
    # refactorings
    ("ok", M, "    globals()[f\"command_{args.command.replace('-', '_')}\"](parser, args)", "    name = 'command_' + '_'.join(args.command.split('-'))\n    handler = globals()[name]\n    handler(parser, args)"),
    ("ok", M, "    for component in parse_component_args(parser, args.storage, args.component):\n        component.download(langs=args.langs)", "    for text in args.component:\n        for component in parse_component_arg(parser, args.storage, text):\n            component.download(args.langs)"),
    ("ok", M, "    for elem in parse_component_arg(parser, args.storage, args.component):\n        it = elem.relpaths(langs=args.langs) if args.relative else elem.fspaths(langs=args.langs)\n        for path in it:\n            print(path)", "    for elem in parse_component_arg(parser, args.storage, args.component):\n        if args.relative:\n            it = elem.relpaths(langs=args.langs)\n        else:\n            it = elem.fspaths(langs=args.langs)\n        for path in it:\n            print(path)"),
    ("ok", M, "        if args.type == 'patch' or args.type in (e.name for e in patch.elements):\n            print(patch.version)", "        names = [e.name for e in patch.elements]\n        if args.type != 'patch' and args.type not in names:\n            continue\n        print(patch.version)"),
    ("ok", M, "    if args.unknown == 'yes':\n        pass  # don't filter\n    elif args.unknown == 'only':\n        wad.files = [wf for wf in wad.files if wf.path is None]\n    elif args.unknown == 'no':\n        wad.files = [wf for wf in wad.files if wf.path is not None]\n", "    if args.unknown != 'yes':\n        only = args.unknown == 'only'\n        wad.files = [wf for wf in wad.files if (wf.path is None) == only]\n"),
    ("ok", M, "        wad.files = [wf for wf in wad.files if any(wf.path is not None and fnmatch.fnmatchcase(wf.path, p) for p in args.pattern)]", "        kept = []\n        for wf in wad.files:\n            if wf.path is None:\n                continue\n            for p in args.pattern:\n                if fnmatch.fnmatchcase(wf.path, p):\n                    kept.append(wf)\n                    break\n        wad.files = kept"),
    ("ok", M, "        for name in method_names:\n            if name not in all_method_names:\n                parser.error(f\"unknown guessing method: {name}\")", "        unknown = [name for name in method_names if name not in all_method_names]\n        if unknown:\n            parser.error(f\"unknown guessing method: {unknown[0]}\")"),
    ("ok", M, "            it = storage.patches(stored=True)\n            for v in it:\n                if v.version == patch.version:\n                    previous_patch = next(it, None)\n                    break\n            else:\n                previous_patch = None\n", "            previous_patch = None\n            it = storage.patches(stored=True)\n            for v in it:\n                if v.version == patch.version:\n                    previous_patch = next(it, None)\n                    break\n"),
    ("ok", M, "    path = default_path if args.storage is None else args.storage\n    if path is None:\n        conf = {\n            'type': 'patcher',\n            'path': 'cdn',\n        }\n", "    path = args.storage\n    if path is None:\n        path = default_path\n    if path is None:\n        conf = dict(type='patcher', path='cdn')\n"),
    ("ok", M, "    if args.patchline is not None:\n        if conf['type'] == 'patcher':\n            conf['patchline'] = args.patchline\n        else:\n            parser.error(\"--patchline is only supported for 'patcher' storage\")\n", "    patchline = args.patchline\n    if patchline is not None:\n        if conf['type'] != 'patcher':\n            parser.error(\"--patchline is only supported for 'patcher' storage\")\n        conf['patchline'] = patchline\n"),
    ("ok", M, "    sknfile = SknFile(args.skn)\n    if args.output is None:\n        args.output = os.path.splitext(args.skn)[0]\n    os.makedirs(args.output, exist_ok=True)\n    for entry in sknfile.entries:\n        name = os.path.join(args.output, entry[\"name\"] + \".obj\")\n", "    sknfile = SknFile(args.skn)\n    output = args.output\n    if output is None:\n        output, _ = os.path.splitext(args.skn)\n    os.makedirs(output, exist_ok=True)\n    for entry in sknfile.entries:\n        name = os.path.join(output, f\"{entry['name']}.obj\")\n"),
    ("ok", "storage.py", "    if version == '':\n        version, latest = None, True\n    elif version.endswith('.'):\n        version, latest = version.rstrip('.'), True\n    else:\n        latest = False\n", "    latest = version == '' or version[-1] == '.'\n    version = version.rstrip('.') or None\n"),
    ("ok", "storage.py", "        patch = storage.patch(version)\n        if patch is None:\n            return None\n        if latest:\n            patch = patch.latest()\n        return patch", "        patch = storage.patch(version=version)\n        return patch.latest() if patch is not None and latest else patch"),
    ("ok", M, "        json_dump(binfile.to_serializable(), sys.stdout)\n    else:\n        binfile.dump(sys.stdout)", "        tree = binfile.to_serializable()\n        json_dump(tree, sys.stdout)\n        return\n    binfile.dump(sys.stdout)"),
]
