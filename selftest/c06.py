P="patcher.py"
M="ThreadPool(8).map(self.release.storage.download_bundle, sorted(self.bundle_ids(langs=langs, skip_extracted=skip_extracted)), 1)"
CASES = [
 ("bad",P,"        self.elem.download_bundles(langs=langs)\n        self.elem.extract(langs=langs)","        self.elem.extract(langs=langs)\n        self.elem.download_bundles(langs=langs)"),
 ("bad",P,"        self.elem.download_bundles(langs=langs)\n        self.elem","        self.elem.download_bundles()\n        self.elem"),
 ("bad",P,"        self.elem.extract(langs=langs)","        self.elem.extract()"),
 ("bad",P,"        self.elem.extract(langs=langs)","        self.elem.extract(langs=langs, overwrite=True)"),
 ("bad",P,M,M.replace(".map(",".map_async(")),
 ("bad",P,M,M.replace(".map(",".imap_unordered(")),
 ("ok",P,M,M.replace(".map(",".map_async(")+".get()"),
 ("ok",P,M,"for bundle_id in sorted(self.bundle_ids(langs=langs, skip_extracted=skip_extracted)):\n            self.release.storage.download_bundle(bundle_id)"),
 ("ok",P,M,"ids = self.bundle_ids(langs, skip_extracted)\n        pool = ThreadPool(4)\n        pool.map(self.release.storage.download_bundle, ids)"),
 ("bad",P,M,"try:\n            "+M+"\n        except Exception as e:\n            logger.warning(e)"),
 ("bad",P,"        return {chunk.bundle.bundle_id for f in files for chunk in f.chunks}","        return [chunk.bundle.bundle_id for f in files for chunk in f.chunks]"),
 ("bad",P,"        return {chunk.bundle.bundle_id for f in files for chunk in f.chunks}","        return {f.chunks[0].bundle.bundle_id for f in files}"),
 ("bad",P,"        return {chunk.bundle.bundle_id for f in files for chunk in f.chunks}","        return {chunk.bundle.bundle_id for f in files for chunk in f.chunks[:8]}"),
 ("bad",P,"        return {chunk.bundle.bundle_id for f in files for chunk in f.chunks}","        return {chunk.bundle.bundle_id for f in files if f.size for chunk in f.chunks if chunk.target_size}"),
 ("ok",P,"        return {chunk.bundle.bundle_id for f in files for chunk in f.chunks}","        ids = set()\n        for f in files:\n            for chunk in f.chunks:\n                ids.add(chunk.bundle.bundle_id)\n        return ids"),
 ("bad",P,"            files = (f for f in files if not self.is_extracted_file(f))","            files = (f for f in files if not os.path.isfile(self.extract_path(f)))"),
 ("bad",P,"        files = [f for f in self.manif.filter_files(langs) if not f.link]\n        if","        files = [f for f in self.manif.filter_files(langs) if not f.link and f.flags]\n        if"),
 ("bad",P,"        files = [f for f in self.manif.filter_files(langs) if not f.link]\n        for","        files = [f for f in self.manif.filter_files(langs)]\n        for"),
 ("bad",P,"return os.path.isfile(output) and os.path.getsize(output) == file.size","return os.path.isfile(output)"),
 ("bad",P,"return os.path.isfile(output) and os.path.getsize(output) == file.size","return os.path.isfile(output) and os.path.getsize(output) >= file.size"),
 ("bad",P,"return os.path.isfile(output) and os.path.getsize(output) == file.size","return os.path.exists(output) and os.path.getsize(output) == file.size"),
 ("ok",P,"        return os.path.isfile(output) and os.path.getsize(output) == file.size","        if not os.path.isfile(output):\n            return False\n        return file.size == os.path.getsize(output)"),
 ("bad",P,"        if not overwrite and self.is_extracted_file(file):","        if self.is_extracted_file(file):"),
 ("ok",P,"""        if not overwrite and self.is_extracted_file(file):
            logger.debug(f"skip {file.name}: already extracted")
        else:
            self.release""","""        if overwrite or not self.is_extracted_file(file):
            self.release"""),
 ("bad",P,"        if not self.is_extracted_file(file):\n            for bundle_id","        if not os.path.exists(self.extract_path(file)):\n            for bundle_id"),
 ("bad",P,"            for bundle_id in {chunk.bundle.bundle_id for chunk in file.chunks}:","            for bundle_id in {file.chunks[0].bundle.bundle_id}:"),
]
