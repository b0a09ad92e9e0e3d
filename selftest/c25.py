M="__main__.py"
H="hashes.py"
up='''    try:
        last_time = path.stat().st_mtime
        # CloudFlare does not support 'if-modified-since'
        # We have to send a separate HEAD
        r = requests.head(url)
        r.raise_for_status()
        last_modified = datetime.datetime.strptime(r.headers['last-modified'], '%a, %d %b %Y %H:%M:%S GMT').replace(tzinfo=datetime.timezone.utc)
        if last_time >= last_modified.timestamp():
            return  # up to date
    except FileNotFoundError:
        pass  # Never downloaded
'''
get='''    r = requests.get(url)
    r.raise_for_status()
    with write_file_or_remove(path) as f:
        f.write(r.content)
'''
CASES=[
("bad",M,"        'hashes.lcu.txt',\n",""),
("bad",M,"        'hashes.rst.xxh3.txt',\n",""),
("bad",M,"        'hashes.bintypes.txt',\n","        'hashes.bintype.txt',\n"),
("bad","rstfile.py",'"hashes.rst.xxh3.txt"','"hashes.rst.xxh3_64.txt"'),
("bad",M,"    for basename in hash_files:\n","    for basename in hash_files[1:]:\n"),
("bad",M,"        update_default_hashfile(basename)\n","        if not basename.startswith('hashes.bin'):\n            update_default_hashfile(basename)\n"),
("bad",H,up,up.replace(".replace(tzinfo=datetime.timezone.utc)","")),
("bad",H,up,up.replace(">=",">")),
("bad",H,up,up.replace(">=","<=")),
("bad",H,up,up.replace("st_mtime","st_atime")),
("bad",H,up,up.replace("        pass  # Never","        return  # Never")),
("bad",H,up,up.replace("except FileNotFoundError","except Exception")),
("bad",H,up,up.replace("            return  # up","            pass  # up")),
("bad",H,get,get.replace("write_file_or_remove(path)","write_file_or_remove(Path(basename))")),
("bad",H,get,get.replace("    r.raise_for_status()\n","")),
("bad",H,'https://raw.communitydragon.org/data/hashes/lol/{basename}"','https://raw.communitydragon.org/data/hashes/lol/hashes.game.txt"'),
("ok",H,up,'''    if path.exists():
        r = requests.head(url)
        r.raise_for_status()
        modified = datetime.datetime.strptime(r.headers['Last-Modified'], '%a, %d %b %Y %H:%M:%S GMT')
        modified = modified.replace(tzinfo=datetime.timezone.utc).timestamp()
        if not os.path.getmtime(path) < modified:
            return
'''),
("ok",H,up,'''    try:
        last_time = path.stat().st_mtime
    except FileNotFoundError:
        last_time = None
    if last_time is not None:
        r = requests.head(url)
        r.raise_for_status()
        last_modified = _last_modified(r)
        if last_modified <= last_time:
            logger.debug("up to date")
            return
'''),
("ok",H,[up,get,"def update_default_hashfile("],['''    if _is_recent(path, url):
        return
''',get,'''def _is_recent(path, url):
    try:
        last_time = path.stat().st_mtime
    except FileNotFoundError:
        return False
    resp = requests.head(url)
    resp.raise_for_status()
    last_modified = datetime.datetime.strptime(resp.headers['last-modified'], '%a, %d %b %Y %H:%M:%S GMT').replace(tzinfo=datetime.timezone.utc)
    return last_time >= last_modified.timestamp()


def update_default_hashfile(''']),
("ok",M,'''    for basename in hash_files:
        update_default_hashfile(basename)
''','''    for n in range(len(hash_files)):
        update_default_hashfile(hash_files[n])
'''),
("ok",M,'''    for basename in hash_files:
        update_default_hashfile(basename)
''','''    for basename in sorted(hash_files, reverse=True):
        logger.debug(basename)
        update_default_hashfile(basename)
'''),
("ok",M,"    hash_files = [\n","    hash_files = [\n        'hashes.extra.txt',\n"),
("ok",H,get,'''    resp = requests.get(url)
    resp.raise_for_status()
    data = resp.content
    with write_file_or_remove(path) as f:
        f.write(data)
'''),
("ok",H,'''hashfile_lcu = HashFile(default_hash_dir / "hashes.lcu.txt")
hashfile_game = HashFile(default_hash_dir / "hashes.game.txt")
''','''def _default_list(kind):
    return HashFile(default_hash_dir / f"hashes.{kind}.txt")

hashfile_lcu = _default_list("lcu")
hashfile_game = _default_list("game")
'''),
]
c=CASES[17]
CASES[17]=("ok",H,[c[2],"def update_default_hashfile("],[c[3],'''def _last_modified(resp):
    date = datetime.datetime.strptime(resp.headers['last-modified'], '%a, %d %b %Y %H:%M:%S GMT')
    return date.replace(tzinfo=datetime.timezone.utc).timestamp()

def update_default_hashfile('''])
