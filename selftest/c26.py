H="hashes.py"
b='''    if path := _env_dir('CDTB_HASHES_DIR'):
        return path
    if path := _env_dir('CDRAGON_DATA'):
        return path / 'hashes/lol'

    # Always search in XDG_DATA_HOME, even on Windows
    path = _env_dir('XDG_DATA_HOME')
    if not path or not path.is_absolute():
        # Assume LOCALAPPDATA is not set when not on Windows
        path = _env_dir('LOCALAPPDATA') or Path.home() / ".local/share"
    return path / 'cdragon/data/hashes/lol'
'''
e='''        value = os.environ.get(name)
        return Path(value) if value else None
'''
CASES=[
("bad",H,e,e.replace("if value else","if value is not None else")),
("bad",H,e,"        return Path(os.environ[name]) if name in os.environ else None\n"),
("bad",H,b,b.replace("return path / 'hashes/lol'","return path")),
("bad",H,b,b.replace(" or not path.is_absolute()","")),
("bad",H,b,b.replace("    if path := _env_dir('CDTB_HASHES_DIR'):\n        return path\n","").replace("    # Always","    if path := _env_dir('CDTB_HASHES_DIR'):\n        return path\n    # Always")),
("bad",H,b,b.replace("_env_dir('LOCALAPPDATA') or Path.home() / \".local/share\"","Path.home() / \".local/share\"")),
("bad",H,b,b.replace("    return path / 'cdragon/data","    if os.name == 'nt':\n        path = _env_dir('LOCALAPPDATA') or path\n    return path / 'cdragon/data")),
("bad",H,b,b.replace("cdragon/data/hashes/lol","cdragon/hashes/lol")),
("bad",H,b,b.replace("if not path or not path.is_absolute():","if not path:\n        path = Path.home() / '.local/share'\n    elif not path.is_absolute():")),
("bad",H,b,b.replace("_env_dir('CDRAGON_DATA'):","_env_dir('CDRAGON_DATA' if not _env_dir('LOCALAPPDATA') else 'CDRAGON_DATA_DIR'):")),
("bad",H,"default_hash_dir = _default_hash_dir()","default_hash_dir = Path('hashes')"),
("ok",H,b,'''    for name, sub in (('CDTB_HASHES_DIR', ''), ('CDRAGON_DATA', 'hashes/lol')):
        path = _env_dir(name)
        if path is not None:
            return path / sub
    path = _env_dir('XDG_DATA_HOME')
    if path is None or not path.is_absolute():
        path = _env_dir('LOCALAPPDATA')
        if path is None:
            path = Path.home() / ".local" / "share"
    return path / 'cdragon' / 'data' / 'hashes' / 'lol'
'''),
("ok",H,[b,e],['''    hashes_dir = os.environ.get('CDTB_HASHES_DIR', '')
    if hashes_dir != '':
        return Path(hashes_dir)
    data = os.environ.get('CDRAGON_DATA', '')
    if data:
        return Path(data, 'hashes', 'lol')
    xdg = os.environ.get('XDG_DATA_HOME')
    local = os.getenv('LOCALAPPDATA')
    if xdg and os.path.isabs(xdg):
        base = Path(xdg)
    elif local:
        base = Path(local)
    else:
        base = Path(os.path.expanduser('~/.local/share'))
    return base.joinpath('cdragon/data/hashes/lol')
''',e]),
("ok",H,e,'''        value = os.environ.get(name)
        if value is None or value == '':
            return None
        return Path(value)
'''),
("ok",H,e,'''        if name not in os.environ:
            return None
        value = os.environ[name]
        return Path(value) if len(value) > 0 else None
'''),
]
