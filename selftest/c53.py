F = "patcher.py"
SEL = "        if url_or_path and not url_or_path.startswith('http://') and not url_or_path.startswith('https://') and os.path.exists(url_or_path):"
LOOP = "        for config in data[f\"keystone.products.league_of_legends.patchlines.{self.patchline}\"][\"platforms\"][\"win\"][\"configurations\"]:\n            if config['id'] == region:\n                return config['patch_url']\n"
RX = 'm = re.match(r"^channels/public/releases/([0-9A-F]{16})\\.manifest$", id_or_url[len(self.url):])'
CASES = [
    ("bad", F, SEL, "        if url_or_path and os.path.exists(url_or_path):"),
    ("bad", F, SEL, "        if url_or_path and not url_or_path.startswith('http') and os.path.exists(url_or_path):"),
    ("bad", F, SEL, "        if False:"),
    ("bad", F, "            url = url_or_path or \"https://client", "            url = \"https://client"),
    ("bad", F, "region = 'PBE' if self.patchline == 'pbe' else self.CLIENT_LIVE_REGION", "region = self.CLIENT_LIVE_REGION"),
    ("bad", F, "region = 'PBE' if self.patchline == 'pbe' else self.CLIENT_LIVE_REGION", "region = 'PBE' if self.patchline != 'live' else self.CLIENT_LIVE_REGION"),
    ("bad", F, "    CLIENT_LIVE_REGION = 'EUW'", "    CLIENT_LIVE_REGION = 'EUW1'"),
    ("bad", F, "patchlines.{self.patchline}\"]", "patchlines.live\"]"),
    ("bad", F, "[\"platforms\"][\"win\"]", "[\"platforms\"][\"mac\"]"),
    ("bad", F, "            if config['id'] == region:\n                return config['patch_url']\n", "            if config['id'] == region:\n                break\n        return config['patch_url']\n"),
    ("bad", F, "            if config['id'] == region:\n", "            if region in config['id'] or True:\n"),
    ("und", F, "        raise ValueError(f\"client configuration not found for {self.patchline}\")\n", "        return config['patch_url']\n"),
    ("bad", F, "platform = 'PBE1' if self.patchline == 'pbe' else self.GAME_LIVE_PLATFORM", "platform = self.GAME_LIVE_PLATFORM"),
    ("bad", F, "version-sets/{platform}?q[platform]=windows&q[published]=true", "version-sets/{platform}?q[platform]=macos&q[published]=true"),
    ("bad", F, "        assert len(data[\"releases\"]) == 1\n", ""),
    ("bad", F, "        assert len(data[\"releases\"]) == 1\n", "        if not data[\"releases\"]:\n            return None\n"),
    ("bad", F, "            id_or_url = id_or_url.replace(\".secure.\", \".\")\n", ""),
    ("bad", F, "            if not id_or_url.startswith(self.url):\n                raise ValueError(f\"unexpected base URL for manifest: {id_or_url}\")\n", ""),
    ("bad", F, "([0-9A-F]{16})\\.manifest$", "([0-9A-F]{16}).manifest$"),
    ("bad", F, "([0-9A-F]{16})\\.manifest$", "([0-9A-F]{16})\\.manifest"),
    ("bad", F, "([0-9A-F]{16})\\.manifest$", "([0-9A-F]+)\\.manifest$"),
    ("bad", F, "re.match(r\"^channels", "re.search(r\"channels"),
    ("bad", F, "manif_id = int(m.group(1), 16)", "manif_id = int(m.group(1), 16) & 0xffffffff"),
    ("bad", F, "releases/{manif_id:016X}.manifest", "releases/{manif_id:X}.manifest"),
    ("bad", F, "releases/{manif_id:016X}.manifest", "releases/{manif_id:016x}.manifest"),
    ("bad", F, "        if not self.data.get(f\"{name}_patch_url\"):\n            return None\n", "        if f\"{name}_patch_url\" not in self.data:\n            return None\n"),
    ("bad", F, "        return [name for name in PatchElement.names if self.data.get(f\"{name}_patch_url\")]", "        return [name for name in PatchElement.names]"),
    ("bad", F, "self.manif_url = self.release.data.get(f\"{self.name}_patch_url\")", "self.manif_url = self.release.data.get(\"game_patch_url\")"),
    ("bad", F, "            if elem is not None:\n                yield elem\n", "            if elem is None:\n                break\n            yield elem\n"),
    ("bad", "storage.py", "    names = ('game', 'client')", "    names = ('game', 'lcu')"),
    ("ok", F, SEL, "        is_url = url_or_path is not None and url_or_path.startswith(('http://', 'https://'))\n        if url_or_path and not is_url and os.path.isfile(url_or_path):"),
    ("ok", F, LOOP, "        configs = data[f\"keystone.products.league_of_legends.patchlines.{self.patchline}\"][\"platforms\"][\"win\"][\"configurations\"]\n        urls = {conf['id']: conf['patch_url'] for conf in configs}\n        if region in urls:\n            return urls[region]\n"),
    ("ok", F, LOOP, "        configs = data[f\"keystone.products.league_of_legends.patchlines.{self.patchline}\"][\"platforms\"][\"win\"][\"configurations\"]\n        found = next((conf for conf in configs if conf['id'] == region), None)\n        if found is not None:\n            return found['patch_url']\n"),
    ("ok", F, "        assert len(data[\"releases\"]) == 1\n        return data[\"releases\"][-1][\"download\"][\"url\"]", "        release, = data[\"releases\"]\n        return release[\"download\"][\"url\"]"),
    ("ok", F, "            r = self.s.get(url)\n            r.raise_for_status()\n            data = r.json()\n        region", "            r = self.s.get(url)\n            r.raise_for_status()\n            data = json.loads(r.text)\n        region"),
    ("ok", F, RX, "path = id_or_url[len(self.url):]\n            m = re.fullmatch(r\"channels/public/releases/([0-9A-F]{16})[.]manifest\", path)"),
    ("ok", F, "            if elem is not None:\n                yield elem\n", "            if elem is None:\n                continue\n            yield elem\n"),
    ("ok", F, "        return [name for name in PatchElement.names if self.data.get(f\"{name}_patch_url\")]", "        names = []\n        for name in PatchElement.names:\n            if self.data.get(f\"{name}_patch_url\"):\n                names.append(name)\n        return names"),
    ("ok", F, "            if not id_or_url.startswith(self.url):\n                raise ValueError(f\"unexpected base URL for manifest: {id_or_url}\")\n            m = re.match(r\"^channels/public/releases/([0-9A-F]{16})\\.manifest$\", id_or_url[len(self.url):])", "            m = re.match(\"^\" + re.escape(self.url) + r\"channels/public/releases/([0-9A-F]{16})\\.manifest$\", id_or_url)"),
    ("bad", F, "if not self.manif_url", "if self.manif_url"),
    ("bad", F, "            path = self.release.storage.download_manifest(self.manif_url)", "            path = self.release.storage.download_manifest(self.release.data['client_patch_url'])"),
    ("bad", F, "            self._manif = PatcherManifest(self.release.storage.fspath(path))", "            self._manif = PatcherManifest(path)"),
    ("ok", F, "            path = self.release.storage.download_manifest(self.manif_url)\n            self._manif = PatcherManifest(self.release.storage.fspath(path))", "            st = self.release.storage\n            self._manif = PatcherManifest(st.fspath(st.download_manifest(self.manif_url)))"),
]
