T = "tools.py"
CASES = [
 ("ok", T, "    except:\n        # remove partially written file", "    except BaseException:\n        # remove partially written file"),
 ("bad", T, "    except:\n        # remove partially written file", "    except Exception:\n        # remove partially written file"),
 ("bad", T, "    except:\n        # remove partially written file", "    except OSError:\n        # remove partially written file"),
 ("bad", T, "            pass\n        raise\n", "            pass\n"),
 ("bad", T, "            pass\n        raise\n", "            pass\n        if os.path.exists(path):\n            raise\n"),
 ("bad", T, "        try:\n            os.remove(path)\n        except OSError:\n            pass\n        raise\n", "        os.remove(path)\n        raise\n"),
 ("bad", T, "            os.remove(path)\n", "            if not binary:\n                os.remove(path)\n"),
 ("bad", T, "            os.remove(path)\n", "            pass\n"),
 ("ok", T, "        try:\n            os.remove(path)\n        except OSError:\n            pass\n        raise\n", "        if os.path.exists(path):\n            os.remove(path)\n        raise\n"),
 ("ok", T, "        try:\n            os.remove(path)\n        except OSError:\n            pass\n        raise\n", "        _discard(path)\n        raise\n\ndef _discard(p):\n    try:\n        os.unlink(p)\n    except OSError:\n        pass\n"),
 ("bad", T, "        shutil.rmtree(path, ignore_errors=True)\n        raise", "        os.rmdir(path)\n        raise"),
 ("bad", T, "        shutil.rmtree(path, ignore_errors=True)\n        raise", "        shutil.rmtree(path, ignore_errors=True)"),
 ("bad", T, "        shutil.rmtree(path, ignore_errors=True)\n        raise", "        shutil.rmtree(path)\n        raise"),
 ("bad", T, "    except:\n        # remove directory", "    except Exception:\n        # remove directory"),
 ("bad", T, "        os.makedirs(os.path.dirname(path), exist_ok=True)", "        os.makedirs(os.path.dirname(path))"),
 ("bad", T, "        os.makedirs(os.path.dirname(path), exist_ok=True)\n", ""),
 ("bad", T, "        os.makedirs(path, exist_ok=True)\n", "        os.mkdir(path)\n"),
 ("ok", T, "        with open(path, 'wb' if binary else 'w', encoding=None if binary else 'utf-8') as f:", "        mode = 'w'\n        if binary:\n            mode = 'wb'\n        with open(path, mode) as f:"),
 ("bad", "storage.py", "        with write_file_or_remove(fspath) as f:", "        os.makedirs(os.path.dirname(fspath), exist_ok=True)\n        with open(fspath, 'wb') as f:"),
 ("bad", "patcher.py", "            with write_file_or_remove(real_output) as f:", "            os.makedirs(os.path.dirname(real_output), exist_ok=True)\n            with open(real_output, 'wb') as f:"),
 ("bad", "rads.py", "                    with write_file_or_remove(fspath) as fout:", "                    os.makedirs(os.path.dirname(fspath), exist_ok=True)\n                    with open(fspath, 'wb') as fout:"),
 ("bad", "wad.py", "            with write_file_or_remove(output_path) as fout:", "            os.makedirs(os.path.dirname(output_path), exist_ok=True)\n            with open(output_path, 'wb') as fout:"),
 ("bad", "export.py", "        with write_dir_or_remove(obj_output_path):", "        os.makedirs(obj_output_path, exist_ok=True)\n        if True:"),
 ("bad", "hashes.py", "    with write_file_or_remove(path) as f:", "    with open(path, 'wb') as f:"),
 ("bad", "storage.py", "        with write_file_or_remove(fspath) as f:", "        path0 = fspath + '.x'\n        with write_file_or_remove(path0) as f, open(fspath, 'wb') as f:"),
 ("ok", T, """    try:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'wb' if binary else 'w', encoding=None if binary else 'utf-8') as f:
            yield f
    except:""", """    parent = os.path.dirname(path)
    os.makedirs(parent, exist_ok=True)
    try:
        f = open(path, 'wb' if binary else 'w')
        with f:
            yield f
    except:"""),
 ("ok", T, "    except:\n        # remove partially written file\n        try:\n            os.remove(path)\n        except OSError:\n            pass\n        raise\n", "    except BaseException as e:\n        try:\n            os.remove(path)\n        except OSError:\n            pass\n        raise e\n"),
]
