R="rads.py"
blk='''        except requests.exceptions.HTTPError as e:
            # some packagemanifest files are not available anymore
            # for these project versions, there is no patch version
            if e.response is not None and e.response.status_code == 404:
                return None
            raise
'''
try_='''        try:
            filepaths = pv.filepaths()
'''+blk
cond='            if e.response is not None and e.response.status_code == 404:\n                return None\n            raise\n'
gen='''                patch = sv.patch_version()
                if patch is None:
                    continue
                yield RadsPatchElement(sv)
'''
CASES=[
("bad",R,cond,"            return None\n"),
("bad",R,cond,"            if e.response is not None and e.response.status_code >= 400:\n                return None\n            raise\n"),
("bad",R,cond,"            if e.response is not None and e.response.status_code != 404:\n                return None\n            raise\n"),
("bad",R,cond,"            if e.response is not None and e.response.status_code == 403:\n                return None\n            raise\n"),
("bad",R,cond,"            if e.response is not None and e.response.status_code in (403, 404):\n                return None\n            raise\n"),
("bad",R,cond,"            if e.response is None or e.response.status_code == 404:\n                return None\n            raise\n"),
("bad",R,cond,"            if e.response and e.response.status_code == 404:\n                return None\n            raise\n"),
("bad",R,cond,"            raise\n"),
("bad",R,cond,"            if e.response is not None and e.response.status_code == 404:\n                filepaths = []\n            else:\n                raise\n"),
("bad",R,cond,"            filepaths = []\n"),
("bad",R,"except requests.exceptions.HTTPError as e:","except requests.exceptions.ConnectionError as e:"),
("bad",R,try_,"        filepaths = pv.filepaths()\n"),
("bad",R,"                if patch is None:\n                    continue\n",""),
("bad",R,"                if patch is None:\n                    continue\n","                if patch is not None:\n                    continue\n"),
("bad",R,"                if patch is None:\n                    continue\n","                if patch is None and stored:\n                    continue\n"),
("bad",R,"                if patch is None:\n                    continue\n","                if patch is None or stored:\n                    continue\n"),
("bad",R,gen,'''                try:
                    patch = sv.patch_version()
                except requests.exceptions.HTTPError:
                    continue
                if patch is None:
                    continue
                yield RadsPatchElement(sv)
'''),
("bad",R,gen,'''                try:
                    patch = sv.patch_version()
                except Exception as e:
                    logger.warning(f"skipped: {e}")
                    patch = None
                if patch is None:
                    continue
                yield RadsPatchElement(sv)
'''),
("bad",R,"            version = self._retrieve_patch_version()\n            if version is None:","            try:\n                version = self._retrieve_patch_version()\n            except IOError:\n                version = None\n            if version is None:"),
("bad",R,"        for pv in self.projects(False):\n            if pv.project.name == project_name:\n                break\n        else:\n            raise ValueError(f\"{project_name} project not found for {self}\")\n\n        try:\n",
 "        try:\n            for pv in self.projects(False):\n                if pv.project.name == project_name:\n                    break\n            else:\n                raise ValueError(f\"{project_name} project not found for {self}\")\n"),
("ok",R,cond,"            if e.response is None or e.response.status_code != 404:\n                raise\n            return None\n"),
("ok",R,cond,"            response = e.response\n            if response is None:\n                raise\n            if response.status_code == 404:\n                logger.debug('gone')\n                return\n            raise e\n"),
("ok",R,cond,"            if getattr(e.response, 'status_code', None) != 404:\n                raise\n            return None\n"),
("ok",R,gen,"                if sv.patch_version() is not None:\n                    yield RadsPatchElement(sv)\n"),
("ok",R,"                patch = sv.patch_version()\n                if patch is None:\n                    continue\n","                if not sv.patch_version():\n                    continue\n"),
("ok",R,try_,'''        filepaths = self._available_paths(pv)
        if filepaths is None:
            return None
'''),
]
CASES[-1]=("ok",R,[try_,"    def _retrieve_patch_version(self)"],['''        filepaths = self._available_paths(pv)
        if filepaths is None:
            return None
''','''    def _available_paths(self, pv):
        try:
            return pv.filepaths()
        except requests.exceptions.HTTPError as e:
            if e.response is not None and e.response.status_code == 404:
                return None
            raise

    def _retrieve_patch_version(self)'''])
