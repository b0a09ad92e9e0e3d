S="storage.py"; P="patcher.py"; R="rads.py"
CASES = [
 ("bad",S,"        if not force and os.path.isfile(fspath):","        if os.path.isfile(fspath):"),
 ("bad",S,"        if not force and os.path.isfile(fspath):","        if not force and os.path.exists(fspath):"),
 ("bad",S,"        if not force and os.path.isfile(fspath):","        if not force and os.path.isfile(path):"),
 ("bad",S,"        if not force and os.path.isfile(fspath):","        if not force:"),
 ("bad",S,"        if not force and os.path.isfile(fspath):","        if force and os.path.isfile(fspath):"),
 ("bad",S,"        if not force and os.path.isfile(fspath):","        if not force and os.path.isfile(fspath) and os.path.getsize(fspath):"),
 ("bad",S,"        r = self.request_get(urlpath)\n        r.raise_for_status()\n        with","        r = self.request_get(path)\n        r.raise_for_status()\n        with"),
 ("bad",S,"self.url + path, **kwargs","self.url + '/' + path, **kwargs"),
 ("bad",S,"self.url + path, **kwargs","path, **kwargs"),
 ("ok",S,"self.url + path, **kwargs","f'{self.url}{path}', **kwargs"),
 ("bad",S,"f.write(r.content)","f.write(r.text.encode())"),
 ("bad",S,"            path = urlpath\n        fspath","            path = os.path.basename(urlpath)\n        fspath"),
 ("ok",S,"        if path is None:\n            path = urlpath\n        fspath = self.fspath(path)","        fspath = self.fspath(urlpath) if path is None else self.fspath(path)"),
 ("ok",S,"        if path is None:\n            path = urlpath\n        fspath = self.fspath(path)","        fspath = os.path.join(self.path, urlpath if path is None else path)"),
 ("ok",S,"        if not force and os.path.isfile(fspath):\n            return\n\n        logger.debug(f\"download file: {path}\")\n        r = self.request_get(urlpath)\n        r.raise_for_status()\n        with write_file_or_remove(fspath) as f:\n            f.write(r.content)","        if force or not os.path.isfile(fspath):\n            logger.debug(f\"download file: {path}\")\n            r = self.request_get(urlpath)\n            r.raise_for_status()\n            data = r.content\n            with write_file_or_remove(fspath) as f:\n                f.write(data)"),
 ("ok",S,"            f.write(r.content)","            for chunk in r.iter_content(1024):\n                f.write(chunk)"),
 ("bad",S,"        with write_file_or_remove(fspath) as f:\n            f.write(r.content)","        if r.content:\n            with write_file_or_remove(fspath) as f:\n                f.write(r.content)"),
 ("bad",P,'        path = f"channels/public/bundles/{chunk.bundle.bundle_id:016X}.bundle"','        path = f"channels/public/bundles/{chunk.bundle.bundle_id:016x}.bundle"'),
 ("bad",P,'        path = f"channels/public/bundles/{chunk.bundle.bundle_id:016X}.bundle"','        path = f"channels/public/bundles/{chunk.chunk_id:016X}.bundle"'),
 ("bad",P,'        path = f"channels/public/bundles/{bundle_id:016X}.bundle"\n        self.download(path, None)','        path = f"channels/public/bundles/{bundle_id:016X}.bundle"\n        self.download(path, path.lower())'),
 ("bad",P,'        self.download(path, None)\n        return path\n\n    def download_bundle','        self.download(path, f"manifests/{manif_id:016X}.manifest")\n        return path\n\n    def download_bundle'),
 ("ok",P,['        path = f"channels/public/bundles/{chunk.bundle.bundle_id:016X}.bundle"','        path = f"channels/public/bundles/{bundle_id:016X}.bundle"\n','    def load_chunk'],['        path = self.bundle_path(chunk.bundle.bundle_id)','        path = self.bundle_path(bundle_id)\n','    def bundle_path(self, i):\n        return "channels/public/bundles/" + f"{i:016X}" + ".bundle"\n\n    def load_chunk']),
 ("bad",P,"            self._manif = PatcherManifest(self.release.storage.fspath(path))","            self._manif = PatcherManifest(os.path.join(self.release.storage_dir, path))"),
 ("bad",R,"            self.project.storage.download(manifest_urlpath, manifest_path)","            self.project.storage.download(manifest_urlpath, None)"),
 ("bad",R,"        self.solution.storage.download(path, path)\n","        if self.version:\n            self.solution.storage.download(path, path)\n"),
 ("bad",R,"BinPackageFile.from_package_manifest(self.project.storage.fspath(manifest_path))","BinPackageFile.from_package_manifest(self.project.storage.fspath(manifest_urlpath))"),
 ("bad",S,"        with self.s.get(self.url + urlpath, stream=True) as r:","        with self.s.get(urlpath, stream=True) as r:"),
]
