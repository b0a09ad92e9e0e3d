P="patcher.py"
full='''        with write_file_or_remove(f"{base}/{timestamp}/release.json", binary=False) as f:
            json.dump(release_info, f)
        with write_file_or_remove(f"{base}/latest.timestamp", binary=False) as f:
            print(f"{timestamp}", file=f)
'''
lt='''        latest_timestamp = self.latest_timestamp()
        if latest_timestamp is None:
            latest_release = None
        else:
            latest_release = PatcherRelease(self, latest_timestamp)
        if latest_release and release_info == latest_release.data:
            return  # already up to date
'''
CASES=[
 ("bad",P,full,'''        with write_file_or_remove(f"{base}/latest.timestamp", binary=False) as f:
            print(f"{timestamp}", file=f)
        with write_file_or_remove(f"{base}/{timestamp}/release.json", binary=False) as f:
            json.dump(release_info, f)
'''),
 ("bad",P,full,'''        with write_file_or_remove(f"{base}/{timestamp}/release.json", binary=False) as f:
            json.dump(release_info, f)
            with write_file_or_remove(f"{base}/latest.timestamp", binary=False) as g:
                print(f"{timestamp}", file=g)
'''),
 ("bad",P,'            print(f"{timestamp}", file=f)','            print(f"{int(time.time())}", file=f)'),
 ("bad",P,'        with write_file_or_remove(f"{base}/latest.timestamp", binary=False) as f:\n            print(f"{timestamp}", file=f)','        with write_file_or_remove(f"{base}/latest.timestamp", binary=False) as f:\n            print(f"{latest_timestamp}", file=f)'),
 ("ok",P,'            print(f"{timestamp}", file=f)','            f.write(str(timestamp))'),
 ("ok",P,'            print(f"{timestamp}", file=f)','            f.write(f"{timestamp}\\n")'),
 ("ok",P,'            print(f"{timestamp}", file=f)','            print(timestamp, file=f)'),
 ("bad",P,lt,lt.replace(" and release_info"," and release_info['game_patch_url'] == latest_release.data['game_patch_url'] or latest_release and release_info")),
 ("bad",P,lt,lt.replace(" and release_info == latest_release.data"," and release_info['game_patch_url'] == latest_release.data['game_patch_url']")),
 ("ok",P,lt,lt.replace(" and release_info == latest_release.data"," and release_info['game_patch_url'] == latest_release.data['game_patch_url'] and release_info['client_patch_url'] == latest_release.data['client_patch_url']")),
 ("bad",P,lt,lt.replace(" and release_info == "," and release_info != ")),
 ("bad",P,lt,lt.replace("            latest_release = None\n","            return\n")),
 ("bad",P,lt,lt.replace("        if latest_release and release_info == latest_release.data:","        if latest_release:")),
 ("bad",P,lt,""),
 ("ok",P,lt,'''        latest_timestamp = self.latest_timestamp()
        if latest_timestamp is not None and PatcherRelease(self, latest_timestamp).data == release_info:
            return
'''),
 ("ok",P,lt,lt.replace("if latest_release and release_info == latest_release.data:","if latest_release is not None and not (release_info != latest_release.data):")),
 ("bad",P,lt,'''        latest_release = next(self.iter_releases(), None)
        if latest_release and release_info == latest_release.data and self.latest_timestamp() is None:
            return
'''),
 ("bad",P,"            'client_patch_url': self.get_latest_client_manifest(),\n            'game_patch_url': self.get_latest_game_manifest(),","            'client_patch_url': self.get_latest_game_manifest(),\n            'game_patch_url': self.get_latest_client_manifest(),"),
 ("bad",P,"            'client_patch_url': self","            'lcu_patch_url': self"),
 ("ok",P,"            'client_patch_url': self.get_latest_client_manifest(),\n            'game_patch_url': self.get_latest_game_manifest(),","            f'{name}_patch_url': getter() for name, getter in (('client', self.get_latest_client_manifest), ('game', self.get_latest_game_manifest))"),
 ("bad",P,'        self.storage_dir = f"{storage.base_release_path()}/{version}"','        self.storage_dir = f"{storage.base_release_path()}/v{version}"'),
 ("bad",P,'        path = f"{self.base_release_path()}/latest.timestamp"','        path = f"{self.base_release_path()}/{self.CLIENT_LIVE_REGION}/latest.timestamp"'),
 ("ok",P,'        path = f"{self.base_release_path()}/latest.timestamp"','        path = os.path.join(self.base_release_path(), "latest.timestamp")'),
 ("ok",P,['    def fetch_latest_update(self):\n',full],['''    def _publish(self, base, timestamp, info):
        with write_file_or_remove(os.path.join(base, str(timestamp), "release.json"), binary=False) as f:
            f.write(json.dumps(info))
        with write_file_or_remove(os.path.join(base, "latest.timestamp"), binary=False) as f:
            print(timestamp, file=f)

    def fetch_latest_update(self):
''','        self._publish(base, timestamp, release_info)\n']),
 ("bad",P,full,'''        try:
            with write_file_or_remove(f"{base}/{timestamp}/release.json", binary=False) as f:
                json.dump(release_info, f)
        except OSError:
            logger.error("cannot write release")
        with write_file_or_remove(f"{base}/latest.timestamp", binary=False) as f:
            print(f"{timestamp}", file=f)
'''),
 ("bad",P,full,'''        try:
            with write_file_or_remove(f"{base}/{timestamp}/release.json", binary=False) as f:
                json.dump(release_info, f)
        finally:
            with write_file_or_remove(f"{base}/latest.timestamp", binary=False) as f:
                print(f"{timestamp}", file=f)
'''),
 ("bad",P,'self.release.data.get(f"{self.name}_patch_url")','self.release.data.get(f"{self.name}_url")'),
]
