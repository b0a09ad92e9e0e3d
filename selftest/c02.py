CASES = [
 ("bad","storage.py","        r.raise_for_status()\n        r.encoding","        r.encoding"),
 ("bad","storage.py","        r.raise_for_status()\n        with write","        with write"),
 ("bad","storage.py","            r.raise_for_status()\n            yield","            yield"),
 ("bad","storage.py","            r.raise_for_status()\n            yield RequestStreamReader(r)","            yield RequestStreamReader(r)\n            r.raise_for_status()"),
 ("bad","storage.py","        r.raise_for_status()\n        with write_file_or_remove(fspath) as f:\n            f.write(r.content)","        with write_file_or_remove(fspath) as f:\n            f.write(r.content)\n        r.raise_for_status()"),
 ("bad","storage.py","        r.raise_for_status()\n        with write","        if force:\n            r.raise_for_status()\n        with write"),
 ("bad","storage.py","        r.raise_for_status()\n        with write","        try:\n            r.raise_for_status()\n        except requests.HTTPError:\n            logger.warning('x')\n        with write"),
 ("bad","storage.py","        r.raise_for_status()\n        with write","        if r.status_code == 404:\n            r.raise_for_status()\n        with write"),
 ("bad","storage.py","        r.raise_for_status()\n        with write","        if r.status_code >= 500:\n            raise ValueError(r)\n        with write"),
 ("ok","storage.py","        r.raise_for_status()\n        with write","        if not r.ok:\n            raise requests.HTTPError(r.text)\n        with write"),
 ("ok","storage.py","        r.raise_for_status()\n        with write","        if r.status_code != 200:\n            raise requests.HTTPError(r.text)\n        with write"),
 ("ok","storage.py","        r.raise_for_status()\n        with write","        if r.status_code >= 400:\n            raise requests.HTTPError(r.text)\n        with write"),
 ("ok","storage.py",["        return self.s.get(self.url + path, **kwargs)","        r.raise_for_status()\n        with write"],["        r = self.s.get(self.url + path, **kwargs)\n        r.raise_for_status()\n        return r","        with write"]),
 ("ok","storage.py",["        r.raise_for_status()\n        with write","    @contextmanager\n    def stream"],["        self._check(r)\n        with write","    def _check(self, resp):\n        resp.raise_for_status()\n\n    @contextmanager\n    def stream"]),
 ("bad","patcher.py","            r = self.s.get(url)\n            r.raise_for_status()","            r = self.s.get(url)"),
 ("bad","patcher.py","            r = self.s.get(url)\n            r.raise_for_status()","            r = self.request_get(url)"),
 ("bad","patcher.py","published]=true\")\n        r.raise_for_status()","published]=true\")"),
 ("bad","hashes.py","        r.raise_for_status()\n        last","        last"),
 ("bad","hashes.py","    r.raise_for_status()\n    with","    with"),
 ("ok","hashes.py","    r.raise_for_status()\n    with write_file_or_remove(path) as f:\n        f.write(r.content)","    r.raise_for_status()\n    data = r.content\n    with write_file_or_remove(path) as f:\n        f.write(data)"),
 ("bad","rads.py","self.storage.request_text(f\"{self.path}/releaselisting\")\n","self.storage.request_get(f\"{self.path}/releaselisting\").text\n"),
]
