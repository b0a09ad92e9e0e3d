W="wad.py"; X="export.py"; H="hashes.py"; M="__main__.py"
res='''            if wadfile.path_hash in hashes:
                wadfile.path = hashes[wadfile.path_hash]
                wadfile.ext = os.path.splitext(wadfile.path)[1][1:]
'''
unk='''            if not wadfile.path:
                if wadfile.ext:
                    wadfile.path = f"{path}/{wadfile.path_hash:016x}.{wadfile.ext}"
                else:
                    wadfile.path = f"{path}/{wadfile.path_hash:016x}"
'''
san='''                ext = os.path.splitext(wadfile.path)[1]
                if not ext:
                    # some extensionless files conflict with folder names
                    # append a custom suffix to resolve this conflict
                    ext = ".cdtb"

                    if wadfile.ext:
                        # extension was guessed, but the resolved path has no extension
                        # in this case, append the guessed extension
                        ext += f".{wadfile.ext}"

                    wadfile.path += ext

                path, filename = os.path.split(wadfile.path)
                if len(filename) >= 250:
                    wadfile.path = os.path.join(path, f"{filename[:250-17-len(ext)]}.{wadfile.path_hash:016x}{ext}")
'''
order='''        self.sanitize_paths()
        self.set_unknown_paths("unknown")
'''
CASES=[
("bad",W,res,res.replace("if wadfile.path_hash in hashes:","if wadfile.path_hash in hashes and wadfile.type != 2:")),
("bad",W,res,'''            wadfile.path = hashes.get(wadfile.path_hash)
'''),
("bad",W,res,'''            wadfile.path = hashes.get(wadfile.path_hash, "unknown")
'''),
("bad",W,res,res.replace("hashes[wadfile.path_hash]","hashes[wadfile.path_hash].lower()")),
("bad",W,res,res+"            else:\n                break\n"),
("bad",W,"        if hashes is None:\n            hashes = default","        if not hashes:\n            hashes = default"),
("bad",H,'''    if path.endswith(".wad.client"):
        return hashfile_game''','''    if path.endswith(".client"):
        return hashfile_lcu'''),
("bad",W,unk,unk.replace("016x","x",1)),
("bad",W,unk,unk.replace("if not wadfile.path:","if not wadfile.path or wadfile.ext is None:")),
("bad",W,unk,unk.replace("if not wadfile.path:","if not wadfile.path and wadfile.ext:")),
("bad",W,unk,unk.replace("{wadfile.path_hash:016x}.{wadfile.ext}","{wadfile.path_hash:016x}")),
("bad",W,unk,unk.replace("{wadfile.path_hash:016x}.","{wadfile.path_hash:016X}.")),
("bad",W,san,san.replace("ext = os.path.splitext(wadfile.path)[1]","ext = wadfile.ext and '.' + wadfile.ext")),
("bad",W,san,san.replace('''                    wadfile.path += ext

''','\n')),
("bad",W,san,san.replace(">= 250","> 255")),
("bad",W,san,san.replace("len(filename) >= 250","len(wadfile.path) >= 250")),
("bad",W,san,san.replace("250-17-len(ext)","250-17")),
("bad",W,san,san.replace("250-17-len(ext)","260-len(ext)")),
("bad",W,san,san.replace("}.{wadfile.path_hash:016x}{ext}","}{ext}")),
("bad",W,san,san.replace("}.{wadfile.path_hash:016x}{ext}","}.{wadfile.path_hash:016x}")),
("bad",W,san,san.replace("os.path.join(path, f\"","f\"").replace("{ext}\")","{ext}\"")),
("bad",W,san,san.replace("filename[:250","wadfile.path[:250")),
("bad",W,san,san.replace("ext += f","ext = f")),
("bad",W,san,san.replace('".cdtb"','""')),
("bad",W,san,san.replace('                    wadfile.path += ext\n','').replace("path, filename = os.path.split(wadfile.path)","path, filename = os.path.split(wadfile.path)\n                if not filename.endswith(ext):\n                    wadfile.path += ext")),
("bad",W,order,'''        self.set_unknown_paths("unknown")
        self.sanitize_paths()
'''),
("bad",W,order,'''        self.set_unknown_paths("unknown")
'''),
("bad",W,order,order.replace('"unknown"','""')),
("bad",W,"        self.resolve_paths(hashes)","        self.resolve_paths()"),
("bad",X,'''            wad.guess_extensions()
            wad.sanitize_paths()
''','''            wad.sanitize_paths()
            wad.guess_extensions()
'''),
("bad",X,"            wad.sanitize_paths()\n",""),
("bad",X,"            wad.set_unknown_paths(unknown_path)","            if m is not None:\n                wad.set_unknown_paths(unknown_path)"),
("bad",X,'wf.path = f"{subdir}/{wf.path}"','wf.path = f"{subdir}/{wf.path_hash:016x}"'),
("bad",M,'''    wad.guess_extensions()
    wad.extract(''','''    if not args.lazy:
        wad.guess_extensions()
    wad.extract('''),
# quiet
("ok",W,res,'''            path = hashes.get(wadfile.path_hash)
            if path is not None:
                wadfile.path = path
                wadfile.ext = os.path.splitext(path)[1][1:]
'''),
("ok",W,res,'''            if wadfile.path_hash not in hashes:
                continue
            p = hashes[wadfile.path_hash]
            wadfile.path = p
            wadfile.ext = os.path.splitext(p)[1][1:]
'''),
("ok",W,unk,'''            if wadfile.path:
                continue
            name = f"{wadfile.path_hash:016x}"
            if wadfile.ext:
                name += "." + wadfile.ext
            wadfile.path = os.path.join(path, name)
'''),
("ok",W,unk,'''            if not wadfile.path:
                suffix = f".{wadfile.ext}" if wadfile.ext else ""
                wadfile.path = f"{path}/{wadfile.path_hash:016x}{suffix}"
'''),
("ok",W,unk,'''            if not wadfile.path:
                wadfile.path = path + "/" + "%016x" % wadfile.path_hash + ("." + wadfile.ext if wadfile.ext else "")
'''),
("ok",W,san,san.replace("len(filename) >= 250","len(filename) > 249").replace("250-17-len(ext)","233-len(ext)")),
("ok",W,san,san.replace('''                    ext = ".cdtb"

                    if wadfile.ext:
                        # extension was guessed, but the resolved path has no extension
                        # in this case, append the guessed extension
                        ext += f".{wadfile.ext}"
''','''                    ext = f".cdtb.{wadfile.ext}" if wadfile.ext else ".cdtb"
''')),
("ok",W,san,'''                new_path = wadfile.path
                _, ext = os.path.splitext(new_path)
                if ext == "":
                    ext = ".cdtb"
                    if wadfile.ext:
                        ext = ext + "." + wadfile.ext
                    new_path = new_path + ext
                base = os.path.basename(new_path)
                if len(base) >= 250:
                    tail = f".{wadfile.path_hash:016x}{ext}"
                    new_path = os.path.join(os.path.dirname(new_path), base[:250-len(tail)] + tail)
                wadfile.path = new_path
'''),
("ok",W,["            if wadfile.path:\n                ext",],["            if not wadfile.path:\n                continue\n            if True:\n                ext",]),
("ok",H,'''    if path.endswith(".wad.client"):
        return hashfile_game
    elif path.endswith(".wad"):
        return hashfile_lcu
    else:
''','''    if path.endswith(".wad"):
        return hashfile_lcu
    if path.endswith(".wad.client"):
        return hashfile_game
    else:
'''),
("ok",X,"            wad.set_unknown_paths(unknown_path)","            wad.set_unknown_paths(path=unknown_path)"),
("ok",X,'wf.path = f"{subdir}/{wf.path}"','wf.path = os.path.join(subdir, wf.path)'),
("bad",X,"path, re.I)","path)"),
("bad",X,"m.group(1).lower()","m.group(1)"),
("ok",X,"            m = re.search(r'^(plugins/rcp-.+?)/[^/]*assets\\d*\\.wad$', path, re.I)","            m = re.match(r'(plugins/rcp-.+?)/[^/]*assets\\d*\\.wad$', path, flags=re.I)"),
]
