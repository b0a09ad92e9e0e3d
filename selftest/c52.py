F = "storage.py"
P = "patcher.py"
R = "rads.py"
NORM = "    conf['path'] = os.path.normpath(os.path.join(os.path.dirname(path), conf.get('path', '.')))\n"
CASES = [
    ("bad", F, "conf['path'] = os.path.normpath(os.path.join(os.path.dirname(path), conf.get('path', '.')))", "conf['path'] = os.path.normpath(conf.get('path', '.'))"),
    ("bad", F, "conf['path'] = os.path.normpath(os.path.join(os.path.dirname(path), conf.get('path', '.')))", "conf['path'] = os.path.normpath(os.path.join(path, conf.get('path', '.')))"),
    ("bad", F, "conf['path'] = os.path.normpath(os.path.join(os.path.dirname(path), conf.get('path', '.')))", "conf.setdefault('path', os.path.dirname(path))"),
    ("bad", F, "conf.get('path', '.')", "conf.get('path', '..')"),
    ("bad", F, "conf.get('path', '.')", "conf['path']"),
    ("bad", F, "    if 'type' not in conf:\n        raise ValueError(\"storage configuration file must define its 'type'\")\n", ""),
    ("bad", F, "    if 'type' not in conf:\n        raise ValueError(\"storage configuration file must define its 'type'\")\n", "    conf.setdefault('type', 'patcher')\n"),
    ("bad", F, "        if os.path.isfile(conf_path):\n            return load_storage_conf(conf_path)", "        if os.path.isfile(conf_path) and guess_storage_conf(path) is None:\n            return load_storage_conf(conf_path)"),
    ("bad", F, "            if conf is None:\n                raise ValueError(f\"cannot guess storage configuration from '{path}'\")\n            return conf", "            if conf is None:\n                return {'type': 'patcher', 'path': path}\n            return conf"),
    ("bad", F, "os.path.join(path, 'channels')", "os.path.join(path, 'projects')"),
    ("bad", F, "    elif ':' in path:\n        storage_type, storage_path = path.split(':', 1)", "    elif ':' in path:\n        storage_type, storage_path = path.rsplit(':', 1)"),
    ("bad", F, "return {'type': storage_type, 'path': storage_path}", "return {'type': storage_type, 'path': path}"),
    ("bad", F, "return {'type': storage_type, 'path': storage_path}", "return {'type': storage_path, 'path': storage_type}"),
    ("bad", F, "    if os.path.isdir(path):\n        conf_path = ", "    if ':' in path:\n        storage_type, storage_path = path.split(':', 1)\n        return {'type': storage_type, 'path': storage_path}\n    if os.path.isdir(path):\n        conf_path = "),
    ("bad", F, "    elif os.path.isfile(path):\n        return load_storage_conf(path)\n", ""),
    ("bad", F, "        except KeyError:\n            raise ValueError(f\"unknown storage type: {conf['type']}\")\n", "        except KeyError:\n            cls = _storage_registry['patcher']\n"),
    ("bad", F, "            _storage_registry[cls.storage_type] = cls", "            _storage_registry[name] = cls"),
    ("bad", F, "        if cls.storage_type is not None:\n            _storage_registry[cls.storage_type] = cls\n", ""),
    ("bad", F, "        if cls.storage_type is not None:\n            _storage_registry[cls.storage_type] = cls\n", "        if cls.storage_type is None:\n            _storage_registry[cls.storage_type] = cls\n"),
    ("bad", F, "from . import rads as _rads  # noqa\n", ""),
    ("bad", P, "conf.get('patchline', cls.DEFAULT_PATCHLINE)", "cls.DEFAULT_PATCHLINE"),
    ("bad", P, "    DEFAULT_PATCHLINE = 'live'", "    DEFAULT_PATCHLINE = 'pbe'"),
    ("bad", P, "        if conf.get('use_extract_symlinks') is False:\n            storage.use_extract_symlinks = False", "        if conf.get('use_extract_symlinks') is not False:\n            storage.use_extract_symlinks = False"),
    ("bad", P, "        if conf.get('use_extract_symlinks') is False:\n            storage.use_extract_symlinks = False", "        if not conf.get('use_extract_symlinks'):\n            storage.use_extract_symlinks = False"),
    ("bad", P, "            storage.clientconfig_data = conf['clientconfig_data']", "            cls.clientconfig = conf['clientconfig_data']"),
    ("bad", P, "    storage_type = 'patcher'", "    storage_type = 'rads'"),
    ("bad", R, "                raise ValueError(\"'url' and 'cdn' are mutually exclusive\")", "                pass"),
    ("bad", R, "URL_KR = f\"http://{DOWNLOAD_URL}{DOWNLOAD_PATH_KR}/\"", "URL_KR = f\"http://{DOWNLOAD_URL}{DOWNLOAD_PATH_PBE}/\""),
    ("bad", R, "            url = conf.get('url')", "            url = conf.get('cdn')"),
    ("bad", R, "        if url is None:\n            url = self.URL_DEFAULT", "        url = self.URL_DEFAULT"),
    ("bad", R, "        return cls(conf['path'], url)", "        return cls(conf['path'])"),
    ("ok", F, NORM, "    base = os.path.dirname(path)\n    path = conf.get('path') or '.'\n    conf['path'] = os.path.normpath(os.path.join(base, path))\n"),
    ("ok", F, NORM, "    conf.update({'path': os.path.normpath(os.path.join(os.path.dirname(path), conf.get('path', '.')))})\n"),
    ("ok", F, NORM + "    return conf", "    return {**conf, 'path': os.path.normpath(os.path.join(os.path.dirname(path), conf.get('path', '.')))}"),
    ("ok", F, NORM + "    return conf", "    return dict(conf, path=os.path.normpath(os.path.join(os.path.dirname(path), conf.get('path', '.'))))"),
    ("ok", F, "        storage_type, storage_path = path.split(':', 1)", "        storage_type, _, storage_path = path.partition(':')"),
    ("ok", F, "        return load_storage_conf(path)\n    elif ':' in path:\n        storage_type, storage_path = path.split(':', 1)\n        return {'type': storage_type, 'path': storage_path}\n    else:\n        return {'type': 'patcher', 'path': path}", "        return load_storage_conf(path)\n    conf = {'type': 'patcher', 'path': path}\n    if ':' in path:\n        conf['type'], conf['path'] = path.split(':', 1)\n    return conf"),
    ("ok", F, "        try:\n            cls = _storage_registry[conf['type']]\n        except KeyError:\n            raise ValueError(f\"unknown storage type: {conf['type']}\")\n", "        cls = _storage_registry.get(conf['type'])\n        if cls is None:\n            raise ValueError(f\"unknown storage type: {conf['type']}\")\n"),
    ("ok", F, "        try:\n            cls = _storage_registry[conf['type']]\n        except KeyError:\n            raise ValueError(f\"unknown storage type: {conf['type']}\")\n", "        if conf['type'] not in _storage_registry:\n            raise ValueError(f\"unknown storage type: {conf['type']}\")\n        cls = _storage_registry[conf['type']]\n"),
    ("ok", P, "        if conf.get('use_extract_symlinks') is False:\n            storage.use_extract_symlinks = False", "        storage.use_extract_symlinks = conf.get('use_extract_symlinks') is not False"),
    ("ok", P, "        if 'clientconfig_data' in conf:\n            storage.clientconfig_data = conf['clientconfig_data']", "        storage.clientconfig_data = conf.get('clientconfig_data')"),
    ("ok", R, "            url = getattr(cls, f\"URL_{conf['cdn']}\".upper())", "            url = {'default': cls.URL_DEFAULT, 'kr': cls.URL_KR, 'pbe': cls.URL_PBE}[conf['cdn']]"),
    ("ok", R, "        if url is None:\n            url = self.URL_DEFAULT\n        super().__init__(path, url)", "        super().__init__(path, self.URL_DEFAULT if url is None else url)"),
]
