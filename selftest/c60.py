"""Changes to how the type of content is guessed."""
W = "wad.py"
LOOP = '''            if isinstance(matcher, bytes):
                if not data.startswith(matcher):
                    continue
            elif not matcher(data):
                continue
            return ext
'''
JS = '''        try:
            json.loads(data)
            return 'json'
        except (ValueError, RecursionError):
            # invalid JSON or encoding, but also oversized numbers and excessive nesting
            pass

        # Unknown
        return None
'''
FIRST = '''        for wadfile in self.files:
            if not wadfile.ext:
                wadfile.ext = _hash_to_guessed_extensions.get(wadfile.path_hash)
                if not wadfile.ext:
                    unknown_ext = True
        if not unknown_ext:
            return  # all extensions are known
'''
SECOND = '''        with open(self.path, 'rb') as f:
            for wadfile in self.files:
                if not wadfile.ext:
                    data = self.read_file_data(f, wadfile)
                    if not data:
                        continue
                    wadfile.ext = WadFileHeader.guess_extension(data)
                    _hash_to_guessed_extensions[wadfile.path_hash] = wadfile.ext
'''
CASES = [
("bad",W,"except (ValueError, RecursionError):","except json.JSONDecodeError:"),
("bad",W,"except (ValueError, RecursionError):","except ValueError:"),
("bad",W,"except (ValueError, RecursionError):","except (json.JSONDecodeError, UnicodeDecodeError):"),
("ok",W,"except (ValueError, RecursionError):","except Exception:"),
("ok",W,"except (ValueError, RecursionError):","except (RecursionError, UnicodeDecodeError, ValueError):"),
("bad",W,"            (b'r3d2', 'wpk'),\n".replace("            ","        ",1),""),
("bad",W,["        (b'r3d2', 'wpk'),\n","        (b'r3d2Mesh', 'scb'),\n"],["","        (b'r3d2', 'wpk'),\n        (b'r3d2Mesh', 'scb'),\n"]),
("ok",W,["        (b'OEGM', 'mapgeo'),\n","        (b'DDS ', 'dds'),\n"],["","        (b'OEGM', 'mapgeo'),\n        (b'DDS ', 'dds'),\n"]),
("bad",W,"data[6:10] in","data[5:9] in"),
("bad",W,"(b'JFIF', b'Exif')","(b'JFIF',)"),
("bad",W,"bytes.fromhex('33221100')","bytes.fromhex('00112233')"),
("ok",W,"bytes.fromhex('33221100')","b'\\x33\\x22\\x11\\x00'"),
("bad",W,r"b'\x1bLuaQ\x00\x01\x04\x04', 'luabin'",r"b'\x1bLuaQ\x00\x01\x04', 'luabin'"),
("bad",W,"if not data.startswith(matcher):","if matcher not in data:"),
("bad",W,"if not data.startswith(matcher):","if not data.lower().startswith(matcher.lower()):"),
("ok",W,"if not data.startswith(matcher):","if data[:len(matcher)] != matcher:"),
("ok",W,LOOP,"            if data.startswith(matcher) if isinstance(matcher, bytes) else matcher(data):\n                return ext\n"),
("ok",W,LOOP,"            if callable(matcher):\n                found = matcher(data)\n            else:\n                found = data.startswith(matcher)\n            if found:\n                return ext\n"),
("ok",W,JS,"        try:\n            json.loads(data)\n        except (ValueError, RecursionError):\n            return None\n        return 'json'\n"),
("ok",W,JS,"        return 'json' if WadFileHeader._is_json(data) else None\n\n    @staticmethod\n    def _is_json(data):\n        try:\n            json.loads(data)\n            return True\n        except (ValueError, RecursionError):\n            return False\n"),
("bad",W,JS,"        return 'json' if WadFileHeader._is_json(data) else None\n\n    @staticmethod\n    def _is_json(data):\n        try:\n            json.loads(data)\n            return True\n        except (ValueError, RecursionError):\n            return True\n"),
("bad",W,"            return 'json'\n","            return 'js'\n"),
("bad",W,JS,"        return None\n"),
("bad",W,"            json.loads(data)\n            return 'json'\n","            return 'json'\n"),
("bad",W,"            if not wadfile.ext:\n                wadfile.ext = _hash","            if True:\n                wadfile.ext = _hash"),
("bad",W,"_hash_to_guessed_extensions.get(wadfile.path_hash)","_hash_to_guessed_extensions.get(wadfile.offset)"),
("bad",W,"                if not wadfile.ext:\n                    unknown_ext = True\n","                unknown_ext = True\n"),
("bad",W,"                    unknown_ext = True\n","                    unknown_ext = False\n"),
("bad",W,"                    unknown_ext = True\n        if","                    unknown_ext = True\n                break\n        if"),
("ok",W,FIRST,"        for wadfile in self.files:\n            if wadfile.ext:\n                continue\n            wadfile.ext = _hash_to_guessed_extensions.get(wadfile.path_hash)\n            if wadfile.ext:\n                continue\n            unknown_ext = True\n        if not unknown_ext:\n            return\n"),
("bad",W,"                    if not data:\n                        continue\n                    wadfile.ext","                    if not data:\n                        break\n                    wadfile.ext"),
("bad",W,"                    if not data:\n                        continue\n                    wadfile.ext","                    wadfile.ext"),
("bad",W,"                if not wadfile.ext:\n                    data =","                if True:\n                    data ="),
("bad",W,"_hash_to_guessed_extensions[wadfile.path_hash] = wadfile.ext","_hash_to_guessed_extensions[wadfile.ext] = wadfile.path_hash"),
("bad",W,"                    _hash_to_guessed_extensions[wadfile.path_hash] = wadfile.ext\n",""),
("bad",W,"                    wadfile.ext = WadFileHeader.guess_extension(data)\n","                    ext = WadFileHeader.guess_extension(data)\n"),
("ok",W,SECOND,"        with open(self.path, 'rb') as f:\n            for wadfile in self.files:\n                if wadfile.ext:\n                    continue\n                self._guess(f, wadfile)\n\n    def _guess(self, f, wadfile):\n        data = self.read_file_data(f, wadfile)\n        if data:\n            ext = WadFileHeader.guess_extension(data)\n            wadfile.ext = ext\n            _hash_to_guessed_extensions[wadfile.path_hash] = ext\n"),
("ok",W,["        unknown_ext = False\n"+FIRST,"            for wadfile in self.files:\n                if not wadfile.ext:\n                    data ="],["        unknown = []\n        for wadfile in self.files:\n            if not wadfile.ext:\n                wadfile.ext = _hash_to_guessed_extensions.get(wadfile.path_hash)\n                if not wadfile.ext:\n                    unknown.append(wadfile)\n        if not unknown:\n            return\n","            for wadfile in unknown:\n                if True:\n                    data ="]),
("ok",W,FIRST,"        for wadfile in self.files:\n            if not wadfile.ext:\n                wadfile.ext = _hash_to_guessed_extensions.get(wadfile.path_hash)\n        if all(wadfile.ext for wadfile in self.files):\n            return\n"),
]
