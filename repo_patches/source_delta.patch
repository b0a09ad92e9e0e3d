From dedca9d24a2d0cc4796aa75df41c934881658759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:18 +0000
Subject: [PATCH 01/40] fix: check the response status when retrieving
 skins.json

---
 cdtb/hashes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 7619e1f..d3758ae 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -697,7 +697,9 @@ class GameHashGuesser(HashGuesser):
 
         # retrieve chromas from cdragon
         import requests
-        data = requests.get('http://raw.communitydragon.org/pbe/plugins/rcp-be-lol-game-data/global/default/v1/skins.json').json()
+        r = requests.get('http://raw.communitydragon.org/pbe/plugins/rcp-be-lol-game-data/global/default/v1/skins.json')
+        r.raise_for_status()
+        data = r.json()
 
         char_to_skin_groups = {}
         char_name_re = re.compile(r'^/lol-game-data/assets/assets/characters/([^/]+)/skins/')
-- 
2.43.0


From 6b5488e4ac4cf7156c4129d2d4622773e98fe0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:25 +0000
Subject: [PATCH 02/40] fix: extract files again when they are not shared and
 their content is incomplete

---
 cdtb/patcher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index 24e3fc4..fca0fda 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -451,7 +451,8 @@ class PatcherStorage(Storage):
         else:
             real_output = output
 
-        if not os.path.isfile(real_output):
+        # only shared files, whose name depends on their content, can be reused
+        if not self.use_extract_symlinks or not os.path.isfile(real_output):
             logger.debug(f"extract {file.name} to {real_output}")
             with write_file_or_remove(real_output) as f:
                 for chunk in file.chunks:
-- 
2.43.0


From deca17b869ed4246c22a5e11cbd5035857aac8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:11 +0000
Subject: [PATCH 03/40] fix: accept lists of languages and language names when
 selecting files

---
 cdtb/patcher.py | 8 ++++++--
 cdtb/rads.py    | 6 +++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index fca0fda..2081ebb 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -15,6 +15,7 @@ from .storage import (
     get_system_yaml_version,
     get_content_metadata_version,
 )
+from .data import Language
 from .tools import (
     BinaryParser,
     write_file_or_remove,
@@ -69,8 +70,11 @@ class PatcherFile:
         elif langs is True:
             return lambda f: True
         else:
-            lang = langs.lower()  # compare lowercased
-            return lambda f: f.flags is not None and any(f.lower() == lang for f in f.flags)
+            if isinstance(langs, (str, Language)):
+                langs = [langs]
+            # compare lowercased
+            langs = {lang.value if isinstance(lang, Language) else lang.lower() for lang in langs}
+            return lambda f: f.flags is not None and any(f.lower() in langs for f in f.flags)
 
 
 class PatcherManifest:
diff --git a/cdtb/rads.py b/cdtb/rads.py
index 3cdce6d..5abe544 100644
--- a/cdtb/rads.py
+++ b/cdtb/rads.py
@@ -289,10 +289,10 @@ class RadsSolutionVersion:
             return dependencies[None]
         elif langs is True:
             return list({pv for pvs in dependencies.values() for pv in pvs})
-        elif isinstance(langs, Language):
-            return dependencies[langs]
+        elif isinstance(langs, (str, Language)):
+            return dependencies[Language(langs)]
         else:
-            return list({pv for lang in langs for pv in dependencies[lang]})
+            return list({pv for lang in langs for pv in dependencies[Language(lang)]})
 
     def filepaths(self, langs) -> Generator[str, None, None]:
         """Generate the extract path of files in the solution version"""
-- 
2.43.0


From 1048617753b7f3d666ad209afc3d89a4cc09350f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:53 +0000
Subject: [PATCH 04/40] fix: parse manifests given as file objects

---
 cdtb/patcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index 2081ebb..3bd8711 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -89,7 +89,7 @@ class PatcherManifest:
                 with open(path_or_f, "rb") as f:
                     self.parse_rman(f)
             else:
-                self.parse_rman(f)
+                self.parse_rman(path_or_f)
 
     def filter_files(self, langs=True) -> List[PatcherFile]:
         """Filter files from the manifest with provided filters"""
-- 
2.43.0


From 9c62d6fc31e170686279cd6ce527ebd673b86d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:53 +0000
Subject: [PATCH 05/40] fix: convert RGBA16 textures with mipmaps

---
 cdtb/export.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cdtb/export.py b/cdtb/export.py
index e8422f0..f0d2b14 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -683,6 +683,9 @@ class TexConverter(FileConverter):
             elif format == 0x14:  # BGRA8
                 block_size = 1
                 bytes_per_block = 4
+            elif format == 0x15:  # RGBA16
+                block_size = 1
+                bytes_per_block = 8
             else:
                 # Note: already checked above
                 raise FileConversionError(f"unsupported TEX format: {format:x}")
-- 
2.43.0


From f78845fbd789e1568442dcb739bb98ceacc8dde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:53 +0000
Subject: [PATCH 06/40] fix: don't drop WAD files without checksum from
 incremental exports

---
 cdtb/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index f0d2b14..906682a 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -201,7 +201,7 @@ class Exporter:
                 logger.debug(f"filter modified WAD file: {path}")
                 other_sha256 = {wf.path_hash: wf.sha256 for wf in other_wad.files}
                 # change the files from the wad so it only extract these
-                self_wad.files = [wf for wf in self_wad.files if wf.sha256 != other_sha256.get(wf.path_hash)]
+                self_wad.files = [wf for wf in self_wad.files if wf.sha256 is None or wf.sha256 != other_sha256.get(wf.path_hash)]
                 if not self_wad.files:
                     del self.wads[path]
 
-- 
2.43.0


From f558ab1dead070f0235d13a55fb5b8bb51458876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:53 +0000
Subject: [PATCH 07/40] fix: use the patch version when exporting Arena data

---
 cdtb/export.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index 906682a..c6d5306 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -398,8 +398,9 @@ class CdragonRawPatchExporter:
         if self.patch.version != 'main' and self.patch.version < PatchVersion('13.14'):
             return  # no supported Arena data before 13.14
         # don't import in module to be able to execute arenadata module
+        game_version = self.patch.version.as_int()
         from .arenadata import ArenaTransformer
-        transformer = ArenaTransformer(os.path.join(self.output, "game"))
+        transformer = ArenaTransformer(os.path.join(self.output, "game"), game_version)
         transformer.export(os.path.join(self.output, "cdragon/arena"), langs=None)
 
     def _create_exporter(self, patch):
-- 
2.43.0


From f3cc767163a58ce0b68cdf65d03de315b550e0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:53 +0000
Subject: [PATCH 08/40] fix: parse TFT and Arena bin files according to the
 game version

---
 cdtb/arenadata.py | 2 +-
 cdtb/tftdata.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cdtb/arenadata.py b/cdtb/arenadata.py
index 9538546..b159cf3 100644
--- a/cdtb/arenadata.py
+++ b/cdtb/arenadata.py
@@ -15,7 +15,7 @@ class ArenaTransformer:
         """Parse bin data into template data"""
         map30_file = os.path.join(self.input_dir, "data", "maps", "shipping", "map30", "map30.bin")
 
-        map30 = BinFile(map30_file)
+        map30 = BinFile(map30_file, btype_version=self.game_version)
 
         augments = self.parse_augments(map30)
 
diff --git a/cdtb/tftdata.py b/cdtb/tftdata.py
index d47d604..cbfac73 100644
--- a/cdtb/tftdata.py
+++ b/cdtb/tftdata.py
@@ -41,7 +41,7 @@ class TftTransformer:
         """Parse bin data into template data"""
         map22_file = os.path.join(self.input_dir, "data", "maps", "shipping", "map22", "map22.bin")
 
-        map22 = BinFile(map22_file)
+        map22 = BinFile(map22_file, btype_version=self.game_version)
 
         character_names = self.parse_character_names(map22)
         traits = self.parse_traits(map22)
@@ -262,7 +262,7 @@ class TftTransformer:
             if not os.path.exists(self_path):
                 continue
 
-            tft_bin = BinFile(self_path)
+            tft_bin = BinFile(self_path, btype_version=self.game_version)
             record = next((x for x in tft_bin.entries if x.type == "TFTCharacterRecord"), {})
             if "spells" in record:
                 spell_ref = next((s for s in record.getv("spells") if s.h != 0), None)
-- 
2.43.0


From e8be474423cb2f539c53c676040abcf11f1aeb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:53 +0000
Subject: [PATCH 09/40] fix: require --from when exporting several patches

---
 cdtb/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/__main__.py b/cdtb/__main__.py
index b35c851..8ec5f64 100644
--- a/cdtb/__main__.py
+++ b/cdtb/__main__.py
@@ -270,7 +270,7 @@ def command_export(parser, args):
         # multiple patches (update only)
         if args.previous:
             parser.error("patch version required with --previous or --full")
-        if args.first:
+        if not args.first:
             parser.error("--from is required when no patch is provided")
         exporters = CdragonRawPatchExporter.from_directory(storage, args.output, PatchVersion(args.first), symlinks=symlinks)
         for exporter in exporters:
-- 
2.43.0


From 385501124b137b3a2d0c8a3af69f7e62f6fe8e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:53 +0000
Subject: [PATCH 10/40] fix: return None when there is no latest patch

---
 cdtb/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/storage.py b/cdtb/storage.py
index 15506ff..ced0e2a 100644
--- a/cdtb/storage.py
+++ b/cdtb/storage.py
@@ -313,7 +313,7 @@ class Storage(metaclass=StorageRegister):
 
         it = self.patches(stored=stored)
         if version is None:
-            return next(it)
+            return next(it, None)
         for p in it:
             if p.version == version:
                 return p
-- 
2.43.0


From 3d825fa2859955368b77bc7fb972d32fc9028c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:53 +0000
Subject: [PATCH 11/40] fix: report when there is no previous patch to export
 from

---
 cdtb/__main__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cdtb/__main__.py b/cdtb/__main__.py
index 8ec5f64..69c9daf 100644
--- a/cdtb/__main__.py
+++ b/cdtb/__main__.py
@@ -293,9 +293,11 @@ def command_export(parser, args):
             it = storage.patches(stored=True)
             for v in it:
                 if v.version == patch.version:
-                    previous_patch = next(it)
+                    previous_patch = next(it, None)
                     break
             else:
+                previous_patch = None
+            if previous_patch is None:
                 parser.error("cannot guess previous patch")
 
         exporter = CdragonRawPatchExporter(os.path.join(args.output, str(patch.version)), patch, previous_patch, symlinks=symlinks)
-- 
2.43.0


From f77a33b7dbc976f59db7ca966d7dad64ace5082d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:53 +0000
Subject: [PATCH 12/40] fix: guess hashes of game=version and client=version
 components

---
 cdtb/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/__main__.py b/cdtb/__main__.py
index 69c9daf..05000a1 100644
--- a/cdtb/__main__.py
+++ b/cdtb/__main__.py
@@ -200,7 +200,7 @@ def command_hashes_guess(parser, args):
         if isinstance(component, Patch):
             elements = component.elements
         else:
-            elements = [component.elements]
+            elements = [component]
         for elem in elements:
             wads.extend(Wad(p) for p in elem.fspaths() if p.endswith('.wad') or p.endswith('.wad.client'))
 
-- 
2.43.0


From a69c888850bf0d1bbd718e566e8c71c3706230b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:14 +0000
Subject: [PATCH 13/40] fix: skip WAD entries without data when guessing hashes

---
 cdtb/hashes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index d3758ae..6f766e8 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -359,8 +359,11 @@ class HashGuesser:
                 # skip non-text files as soon as possible
                 if wadfile.ext in ('png', 'jpg', 'ttf', 'webm', 'ogg', 'dds', 'tga'):
                     continue
+                data = wad.read_file_data(f, wadfile)
+                if data is None:
+                    continue
                 try:
-                    data = wadfile.read_data(f).decode('utf-8-sig')
+                    data = data.decode('utf-8-sig')
                 except UnicodeDecodeError:
                     continue
                 if data:
-- 
2.43.0


From 1080b9858613be04670a4e573546a414f6c0a046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:14 +0000
Subject: [PATCH 14/40] fix: report invalid RST, SKN and champion skins files
 as conversion errors

---
 cdtb/export.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index c6d5306..3891067 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -751,7 +751,10 @@ class SknConverter(FileConverter):
         obj_output_path = os.path.join(output, os.path.splitext(path)[0])
         shutil.rmtree(obj_output_path, ignore_errors=True)
         with write_dir_or_remove(obj_output_path):
-            sknfile = SknFile(output_path)
+            try:
+                sknfile = SknFile(output_path)
+            except ValueError as e:
+                raise FileConversionError(f"failed to parse skn file: {e}")
             for entry in sknfile.entries:
                 name = os.path.join(obj_output_path, entry["name"] + ".obj")
                 with open(name, "w") as f:
@@ -775,7 +778,10 @@ class RstConverter(FileConverter):
         with write_file_or_remove(output_path) as fout:
             shutil.copyfileobj(fin, fout)
 
-        rstfile = RstFile(output_path, self.game_version)
+        try:
+            rstfile = RstFile(output_path, self.game_version)
+        except ValueError as e:
+            raise FileConversionError(f"failed to parse rst file: {e}")
         hashes = {key_to_rsthash(hash, bits=rstfile.hash_bits): value for hash, value in self.hashes.items()}
         rst_json = {"entries": {}, "version": rstfile.version}
         for key, value in rstfile.entries.items():
@@ -855,10 +861,10 @@ class ChampionSkinInfoConverter(FileConverter):
 
         magic, = parser.unpack("4s")
         if magic != b"mahC":
-            raise ValueError("invalid magic code")
+            raise FileConversionError("invalid magic code")
         version, = parser.unpack("<L")
         if version != 2:
-            raise ValueError(f"unsupported version: {version}")
+            raise FileConversionError(f"unsupported version: {version}")
 
         nchampions, = parser.unpack("<L")
         skin_info = {}
-- 
2.43.0


From 23397fc9aa489c841eeb52aae5a8caef13ad0550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:14 +0000
Subject: [PATCH 15/40] fix: write text files as UTF-8 whatever the locale

---
 cdtb/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/tools.py b/cdtb/tools.py
index c45fdad..68316f1 100644
--- a/cdtb/tools.py
+++ b/cdtb/tools.py
@@ -27,7 +27,7 @@ def write_file_or_remove(path, binary=True):
     """
     try:
         os.makedirs(os.path.dirname(path), exist_ok=True)
-        with open(path, 'wb' if binary else 'w') as f:
+        with open(path, 'wb' if binary else 'w', encoding=None if binary else 'utf-8') as f:
             yield f
     except:
         # remove partially written file
-- 
2.43.0


From 7ec031b1e6ad2c2d60bd00e1331f35fe21b233f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:14 +0000
Subject: [PATCH 16/40] fix: face lines of extracted meshes

---
 cdtb/sknfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/sknfile.py b/cdtb/sknfile.py
index 18b9f4f..793f6c1 100644
--- a/cdtb/sknfile.py
+++ b/cdtb/sknfile.py
@@ -80,6 +80,6 @@ class SknFile:
 
         for i in range(0, len(entry["indices"]), 3):
             a, b, c = entry["indices"][i : i + 3]
-            content += "f {0}/{0}/{0} {1}/{1}/{1}/ {2}/{2}/{2}\n".format(a, b, c)
+            content += "f {0}/{0}/{0} {1}/{1}/{1} {2}/{2}/{2}\n".format(a, b, c)
 
         return content
-- 
2.43.0


From 0041816c14a131bb72d4a56154716c5d2bd0bda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:14 +0000
Subject: [PATCH 17/40] fix: TFT data of patches without sets

---
 cdtb/tftdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/tftdata.py b/cdtb/tftdata.py
index cbfac73..b848203 100644
--- a/cdtb/tftdata.py
+++ b/cdtb/tftdata.py
@@ -146,7 +146,7 @@ class TftTransformer:
             trait_list = longest_trait_list.fields[0].value
             set_characters = [character_names.get(char) for char in champion_list]
             set_traits = [traits.get(trait) for trait in trait_list]
-            return [(1, "Base", set_characters, set_traits)]
+            return [(1, None, "Base", set_characters, set_traits, [], [])]
 
         sets = []
         for item in set_collection:
-- 
2.43.0


From 33ae334bd7a26b5e1d961867a041f87d68c20b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:14 +0000
Subject: [PATCH 18/40] fix: compare versions by their numbers

---
 cdtb/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/storage.py b/cdtb/storage.py
index ced0e2a..8b966a9 100644
--- a/cdtb/storage.py
+++ b/cdtb/storage.py
@@ -24,8 +24,8 @@ class BaseVersion:
         if not v:
             raise ValueError(v)
         if isinstance(v, str):
-            self.s = v
             self.t = tuple(int(x) for x in v.split('.'))
+            self.s = '.'.join(str(x) for x in self.t)
         elif isinstance(v, tuple):
             self.s = '.'.join(str(int(x)) for x in v)
             self.t = v
-- 
2.43.0


From 89e08af94a8127f15da4529b003761158b28019b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:14 +0000
Subject: [PATCH 19/40] fix: exporting a directory of patches with the PBE

---
 cdtb/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index 3891067..ca01a72 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -527,7 +527,7 @@ class CdragonRawPatchExporter:
         # get patches from versions (latest to oldest)
         patches = []
         for patch in storage.patches(stored=True):
-            if first and patch.version < first:
+            if first and patch.version != 'main' and patch.version < first:
                 break
             if patch.version in versions:
                 patches.append(patch)
-- 
2.43.0


From 3cdad860559fbb747af62fe98fdd31cab338813a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:06 +0000
Subject: [PATCH 20/40] fix: don't keep an empty patch version cache when its
 writing fails

---
 cdtb/patcher.py | 2 +-
 cdtb/rads.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index 3bd8711..65d8681 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -608,7 +608,7 @@ class PatcherReleaseElement:
             if version is None:
                 logger.warning(f"failed to retrieve patch version of {self}")
             else:
-                with open(cache, 'w') as f:
+                with write_file_or_remove(cache, binary=False) as f:
                     f.write(f"{version}\n")
         return version
 
diff --git a/cdtb/rads.py b/cdtb/rads.py
index 5abe544..93fbfb2 100644
--- a/cdtb/rads.py
+++ b/cdtb/rads.py
@@ -327,7 +327,7 @@ class RadsSolutionVersion:
             if version is None:
                 logger.warning(f"failed to retrieve patch version for {self}")
             else:
-                with open(cache, 'w') as f:
+                with write_file_or_remove(cache, binary=False) as f:
                     f.write(f"{version}\n")
         return version
 
-- 
2.43.0


From 7db6dd274bcbfea96b6f843c82878d7da6cd94fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:54 +0000
Subject: [PATCH 21/40] fix: report every unreadable subchunk as a malformed
 subchunk

---
 cdtb/wad.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cdtb/wad.py b/cdtb/wad.py
index 4c49e78..2bec083 100644
--- a/cdtb/wad.py
+++ b/cdtb/wad.py
@@ -109,6 +109,8 @@ class WadFileHeader:
                 chunks_data = []
                 offset = 0
                 for index in range(self.first_subchunk_index, self.first_subchunk_index + self.subchunk_count):
+                    if len(subchunk_toc) < 16*(index+1):
+                        raise MalformedSubchunkError(data)
                     compressed_size, uncompressed_size, subchunk_hash = struct.unpack('<IIQ', subchunk_toc[16*index:16*(index+1)])
                     # ensure wad data matches with the subchunktoc data
                     subchunk_data = data[offset:offset+compressed_size]
@@ -118,7 +120,10 @@ class WadFileHeader:
                         # assume data is uncompressed
                         chunks_data.append(subchunk_data)
                     else:
-                        chunks_data.append(zstd_decompress(subchunk_data))
+                        try:
+                            chunks_data.append(zstd_decompress(subchunk_data))
+                        except Exception:
+                            raise MalformedSubchunkError(data)
                     offset += compressed_size
                 return b"".join(chunks_data)
             else:
-- 
2.43.0


From 4163b3a14a8c130861c96804bc707f5e7d15861c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:57 +0000
Subject: [PATCH 22/40] fix: don't fail to open a WAD whose subchunk TOC cannot
 be read

---
 cdtb/wad.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/cdtb/wad.py b/cdtb/wad.py
index 2bec083..eb8ad09 100644
--- a/cdtb/wad.py
+++ b/cdtb/wad.py
@@ -246,17 +246,15 @@ class Wad:
     def load_subchunk_toc(self):
         """Find subchunk TOC if available and parse it"""
 
+        self.subchunk_toc = None
         for wadfile in self.files:
             if wadfile.path is None:
                 continue
             if not wadfile.path.endswith(".subchunktoc"):
                 continue
             with open(self.path, 'rb') as fwad:
-                self.subchunk_toc = wadfile.read_data(fwad)
+                self.subchunk_toc = self.read_file_data(fwad, wadfile)
             break
-        else:
-            # Not found
-            self.subchunk_toc = None
 
     def guess_extensions(self):
         # avoid opening the file if not needed
-- 
2.43.0


From ff47442a0a3f86bec76c6e3b9b1342c607146685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:09 +0000
Subject: [PATCH 23/40] fix: report BIN files of an unsupported format as
 conversion errors

A patch header or entry length that is not the expected one raised an
AssertionError, which stopped the whole export instead of skipping the file.
---
 cdtb/binfile.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cdtb/binfile.py b/cdtb/binfile.py
index 4f94fad..4528d60 100644
--- a/cdtb/binfile.py
+++ b/cdtb/binfile.py
@@ -350,7 +350,8 @@ class BinFile:
         self.is_patch = magic == b'PTCH'
         if self.is_patch:
             patch_header = struct.unpack('<2L', f.read(8))
-            assert patch_header == (1, 0)
+            if patch_header != (1, 0):
+                raise ValueError(f"unsupported patch header: {patch_header}")
             magic = f.read(4)
         if magic != b'PROP':
             raise ValueError("missing magic code")
@@ -414,7 +415,8 @@ class BinReader:
         length, hpath, count = self.read_fmt('<LLH')
         values = [self.read_field() for _ in range(count)]
         entry = BinEntry(hpath, htype, values)
-        assert self.f.tell() - pos == length
+        if self.f.tell() - pos != length:
+            raise ValueError("unexpected entry length")
         return entry
 
     def read_patch_section(self):
-- 
2.43.0


From 1c6785ab23c2df1872172d72fd4170638aed4d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:06 +0000
Subject: [PATCH 24/40] fix: don't report an error when writing an image as a
 conversion error

When the output could not be written (no space left, for instance), the image
was skipped with a warning, and the export went on as if the file were invalid.
---
 cdtb/export.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index ca01a72..cfacb67 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -618,10 +618,13 @@ class ImageConverter(FileConverter):
         with write_file_or_remove(output_path) as fout:
             try:
                 im = Image.open(fin)
-                im.save(fout)
+                fpng = BytesIO()
+                im.save(fpng, 'PNG')
             except (OSError, NotImplementedError):
                 # "OSError: cannot identify image file" happen for some files with a wrong extension
                 raise FileConversionError("cannot convert image to PNG")
+            # write errors (e.g. no space left) are not conversion errors
+            fout.write(fpng.getvalue())
 
 class TexConverter(FileConverter):
     def __init__(self):
@@ -639,9 +642,12 @@ class TexConverter(FileConverter):
         with write_file_or_remove(output_path) as fout:
             try:
                 im = Image.open(fdds)
-                im.save(fout)
+                fpng = BytesIO()
+                im.save(fpng, 'PNG')
             except (OSError, NotImplementedError):
                 raise FileConversionError("cannot convert image to PNG")
+            # write errors (e.g. no space left) are not conversion errors
+            fout.write(fpng.getvalue())
 
     @staticmethod
     def tex_to_dds(data):
-- 
2.43.0


From 8afe1c67a51f5b87213dc44eb4da459d91908bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:53 +0000
Subject: [PATCH 25/40] fix: don't remove the output directory and its parents
 when cleaning it

---
 cdtb/export.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index cfacb67..f9b1aef 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -254,7 +254,10 @@ class Exporter:
 
         for path in dirs_to_remove:
             try:
-                os.removedirs(path)
+                # don't use os.removedirs(), it would also remove the output and its parents
+                while not os.path.samefile(path, self.output):
+                    os.rmdir(path)
+                    path = os.path.dirname(path)
             except OSError:
                 pass
 
-- 
2.43.0


From d3e731fb80c0eb5a0ddd1848df7222473c08464e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:48 +0000
Subject: [PATCH 26/40] fix: don't list the "cdragon" directory as an exported
 file

---
 cdtb/export.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index f9b1aef..a4c2955 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -359,8 +359,7 @@ class CdragonRawPatchExporter:
                 symlinked_paths = reduce_common_paths(new_paths - changed_paths, prev_paths, changed_paths)
 
         # exclude generated "cdragon" files
-        changed_paths.add("cdragon")
-        exporter.clean_output_dir(changed_paths, set(symlinked_paths or []))
+        exporter.clean_output_dir(changed_paths | {"cdragon"}, set(symlinked_paths or []))
 
         # extract files, create symlinks if needed
         exporter.export(overwrite=overwrite)
-- 
2.43.0


From ba524a1d6b425324eb0ea248227798b03d19b5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:36 +0000
Subject: [PATCH 27/40] fix: read and write hash lists and lists of exported
 files as UTF-8

With the encoding of the locale, a path that it cannot represent made the
export fail, or left a truncated hash list.
---
 cdtb/export.py | 4 ++--
 cdtb/hashes.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index a4c2955..629c0cf 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -370,7 +370,7 @@ class CdragonRawPatchExporter:
         os.makedirs(os.path.join(self.output, "cdragon"), exist_ok=True)
 
         if symlinked_paths:
-            with open(os.path.join(self.output, "cdragon/files.links.txt"), 'w', newline='\n') as f:
+            with open(os.path.join(self.output, "cdragon/files.links.txt"), 'w', newline='\n', encoding='utf-8') as f:
                 for link in sorted(symlinked_paths):
                     print(link, file=f)
 
@@ -378,7 +378,7 @@ class CdragonRawPatchExporter:
             for h in unknown_hashes:
                 print(f"{h:016x}", file=f)
 
-        with open(os.path.join(self.output, "cdragon/files.exported.txt"), 'w', newline='\n') as f:
+        with open(os.path.join(self.output, "cdragon/files.exported.txt"), 'w', newline='\n', encoding='utf-8') as f:
             for path in sorted(new_paths):
                 print(path, file=f)
 
diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 6f766e8..132b45b 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -61,7 +61,7 @@ class HashFile:
     def load(self, force=False) -> Dict[int, str]:
         if force or self.hashes is None:
             try:
-                with open(self.filename) as f:
+                with open(self.filename, encoding='utf-8') as f:
                     hashes = (l.split(' ', 1) for l in f)
                     self.hashes = {int(h, 16): s.rstrip('\n') for h, s in hashes}
             except FileNotFoundError:
@@ -69,7 +69,7 @@ class HashFile:
         return self.hashes
 
     def save(self):
-        with open(self.filename, 'w', newline='') as f:
+        with open(self.filename, 'w', newline='', encoding='utf-8') as f:
             for h, s in sorted(self.hashes.items(), key=lambda kv: kv[1]):
                 print(self.line_format.format(h, s), file=f)
 
-- 
2.43.0


From 0d3c0fb01403873870aa46449c58749e1823e5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:45 +0000
Subject: [PATCH 28/40] fix: --patchline was ignored with the default storage

---
 cdtb/__main__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cdtb/__main__.py b/cdtb/__main__.py
index 05000a1..4cf590a 100644
--- a/cdtb/__main__.py
+++ b/cdtb/__main__.py
@@ -62,11 +62,11 @@ def parse_storage_args(parser, args) -> Storage:
         conf = storage_conf_from_path(path)
         if conf is None:
             parser.error(f"cannot retrieve storage configuration from '{path}'")
-        if args.patchline is not None:
-            if conf['type'] == 'patcher':
-                conf['patchline'] = args.patchline
-            else:
-                parser.error("--patchline is only supported for 'patcher' storage")
+    if args.patchline is not None:
+        if conf['type'] == 'patcher':
+            conf['patchline'] = args.patchline
+        else:
+            parser.error("--patchline is only supported for 'patcher' storage")
     return Storage.from_conf(conf)
 
 
-- 
2.43.0


From 30668dbb8697b707b6b0bda7b6416783301f0379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 29/40] fix: don't iterate over known hashes while adding to
 them

---
 cdtb/hashes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 132b45b..1d1cba1 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -552,7 +552,7 @@ class LcuHashGuesser(HashGuesser):
         self.check_iter(f'plugins/rcp-be-sanitizer/global/default/{p}' for p in paths)
 
         # plugins/rcp-fe-lol-loot/global/default/assets/loot_item_icons/{name}.png -> {name}_splash.png
-        for p in self.known.values():
+        for p in list(self.known.values()):
             if p.startswith('plugins/rcp-fe-lol-loot/global/default/assets/loot_item_icons/'):
                 self.check(p.replace('.png', '_splash.png'))
 
-- 
2.43.0


From 7dc51aab68c65d7c8f5d0da6fd1409934da9ba75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 30/40] fix: skip non-ASCII paths when guessing from preload
 and shader files

---
 cdtb/hashes.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 1d1cba1..fedbccd 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -854,7 +854,10 @@ class GameHashGuesser(HashGuesser):
                 elif wadfile.ext == 'preload':
                     # preload files
                     for m in re.finditer(br'Name="([^"]+)"', data):
-                        path = m.group(1).lower().decode('ascii')
+                        try:
+                            path = m.group(1).lower().decode('ascii')
+                        except UnicodeDecodeError:
+                            continue
                         if path.endswith('.lua'):
                             self.check(path)
                             self.check(path[:-4] + '.luabin')
@@ -870,7 +873,10 @@ class GameHashGuesser(HashGuesser):
                     if wadfile.path:
                         dirname = os.path.dirname(wadfile.path)
                         for m in re.finditer(br'#include "([^"]+)"', data):
-                            subpath = m.group(1).lower().decode('ascii')
+                            try:
+                                subpath = m.group(1).lower().decode('ascii')
+                            except UnicodeDecodeError:
+                                continue
                             self.check(os.path.normpath(f"{dirname}/{subpath}").replace('\\', '/'))
 
                 elif wadfile.ext == 'atlas':
-- 
2.43.0


From 136a53d4373f74a7971efe4510f01c78f4ec0ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 31/40] fix: only search JSON objects for keys when guessing
 LCU hashes

---
 cdtb/hashes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index fedbccd..de6e871 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -462,13 +462,13 @@ class LcuHashGuesser(HashGuesser):
                     # names of hextech items, keys are also image names
                     self.check_iter(f"plugins/rcp-be-lol-game-data/global/default/v1/hextech-images/{k}.png" for k in jdata)
                     continue  # no more data to parse
-                elif 'pluginDependencies' in jdata and 'name' in jdata:
+                elif isinstance(jdata, dict) and 'pluginDependencies' in jdata and 'name' in jdata:
                     # retrieve plugin name from description.json
                     # guess some common paths
                     name = jdata['name']
                     subpaths = ['index.html', 'init.js', 'init.js.map', 'bundle.js', 'trans.json', 'css/main.css', 'license.json']
                     self.check_iter(f"plugins/{name}/global/default/{subpath}" for subpath in subpaths)
-                elif 'musicVolume' in jdata and 'files' in jdata:
+                elif isinstance(jdata, dict) and 'musicVolume' in jdata and 'files' in jdata:
                     # splash config
                     # try to guess subdirectory name (names should only contain one element)
                     names = {s.lower() for path in jdata['files'].values() for s in re.findall(r'-splash-([^.]+)', path)}
@@ -479,7 +479,7 @@ class LcuHashGuesser(HashGuesser):
                     champion_ids = [v['id'] for v in jdata]
                     self.check_iter(f'plugins/rcp-be-lol-game-data/global/default/v1/champions/{cid}.json' for cid in champion_ids)
                     self.check_iter(f'plugins/rcp-be-lol-game-data/global/default/v1/champion-splashes/{cid}/metadata.json' for cid in champion_ids)
-                elif 'recommendedItemDefaults' in jdata:
+                elif isinstance(jdata, dict) and 'recommendedItemDefaults' in jdata:
                     # plugins/rcp-be-lol-game-data/global/default/v1/champions/{cid}.json
                     self.check_iter(f'plugins/rcp-be-lol-game-data/global/default{p.lower()}' for p in jdata['recommendedItemDefaults'])
 
-- 
2.43.0


From e257dd6effdf38caae7cc16e8d04edd960a8f667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 32/40] fix: escape '%' in known paths turned into formats

---
 cdtb/hashes.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index de6e871..65e538d 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -169,6 +169,11 @@ def progress_iterator(sequence, formatter=None):
 
 
 
+def escape_format(s):
+    """Escape a string to be used as-is in a '%' format"""
+    return s.replace('%', '%%')
+
+
 class HashGuesser:
     """
     Guess hashes from files
@@ -289,7 +294,7 @@ class HashGuesser:
         for path in paths:
             for m in re_extract.finditer(path):
                 match = m.group(1) + m.group(2)
-                temp_formats.add(format_part % (path[:m.start()], path[m.span()[0]+len(match):]))
+                temp_formats.add(format_part % (escape_format(path[:m.start()]), escape_format(path[m.span()[0]+len(match):])))
 
         formats = {fmt.replace("{sep}", sep) for fmt in temp_formats for sep in "-_"}
 
@@ -306,8 +311,8 @@ class HashGuesser:
         formats = set()
         for path in paths:
             for m in re_extract.finditer(path):
-                formats.update('%s%%s%s%s' % (path[:m.start()], sep, path[m.start():]) for sep in "-_")
-                formats.update('%s%s%%s%s' % (path[:m.end()], sep, path[m.end():]) for sep in "-_")
+                formats.update('%s%%s%s%s' % (escape_format(path[:m.start()]), sep, escape_format(path[m.start():])) for sep in "-_")
+                formats.update('%s%s%%s%s' % (escape_format(path[:m.end()]), sep, escape_format(path[m.end():])) for sep in "-_")
 
         logger.debug(f"add basename word: {len(formats)} formats, {len(words)} words")
         for fmt in progress_iterator(sorted(formats)):
@@ -329,7 +334,7 @@ class HashGuesser:
         formats = set()
         for path in paths:
             for m in re_extract.finditer(path):
-                formats.add('%s%s%s' % (path[:m.start()], fmt, path[m.end():]))
+                formats.add('%s%s%s' % (escape_format(path[:m.start()]), fmt, escape_format(path[m.end():])))
 
         nrange = range(nmax)
         logger.debug(f"substitute numbers: {len(formats)} formats, nmax = {nmax}")
@@ -435,7 +440,7 @@ class LcuHashGuesser(HashGuesser):
 
         all_paths = [p for p in self.known.values() if p.startswith('plugins/')]
         plugins = {p.split('/', 2)[1] for p in all_paths}
-        formats = {re.sub(r'^plugins/([^/]+)/', r'plugins/%s/', p) for p in all_paths}
+        formats = {re.sub(r'^plugins/([^/]+)/', r'plugins/%s/', escape_format(p)) for p in all_paths}
 
         logger.debug(f"substitute plugin: {len(formats)} formats, {len(plugins)} plugins")
         for fmt in progress_iterator(sorted(formats)):
@@ -656,7 +661,7 @@ class GameHashGuesser(HashGuesser):
                 continue
             c = characters.setdefault(char, (set(), set()))
             c[0].add(skin)
-            c[1].add(re.subn(r'(?:base|skin\d+)', '%s', p))
+            c[1].add(re.subn(r'(?:base|skin\d+)', '%s', escape_format(p)))
 
         # generate all combinations
         logger.debug(f"substitute skin numbers: {len(characters)} characters")
@@ -677,7 +682,7 @@ class GameHashGuesser(HashGuesser):
             prefix, suffix, ext = m.groups()
             if suffix:
                 suffixes.add(suffix)
-            formats.add(f"{prefix}%s{ext}")
+            formats.add(f"{escape_format(prefix)}%s{escape_format(ext)}")
 
         # generate all combinations
         logger.debug(f"substitute suffixes: {len(formats)} formats, {len(suffixes)} suffixes")
@@ -865,8 +870,7 @@ class GameHashGuesser(HashGuesser):
                         elif path.endswith('.troy'):
                             self.check('data/shared/particles/'+ path[:-5] + '.troybin')
                         elif wadfile.path:
-                            fmt = os.path.dirname(wadfile.path) + '/%s.preload'
-                            self.check(fmt % path)
+                            self.check(f"{os.path.dirname(wadfile.path)}/{path}.preload")
 
                 elif wadfile.ext in ('hls', 'ps_2_0', 'ps_3_0', 'vs_2_0', 'vs_3_0'):
                     # shader: search for includes
-- 
2.43.0


From 144d104d078e1de347a1718d593a42e83f0531de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 33/40] fix: skip skins whose load screen is not in their
 character's directory

---
 cdtb/hashes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 65e538d..dba6586 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -712,7 +712,10 @@ class GameHashGuesser(HashGuesser):
         char_to_skin_groups = {}
         char_name_re = re.compile(r'^/lol-game-data/assets/assets/characters/([^/]+)/skins/')
         for skin_id, skin_data in data.items():
-            char_name = char_name_re.match(skin_data['loadScreenPath'].lower()).group(1)
+            m = char_name_re.match(skin_data['loadScreenPath'].lower())
+            if not m:
+                continue
+            char_name = m.group(1)
 
             group_skin_ids = [skin_id]
             if skin_data.get('chromas'):
-- 
2.43.0


From a420e85095a9f0b69cc315eee842519b05772545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 34/40] fix: compare known bin names without case, like unknown
 ones

---
 cdtb/binfile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdtb/binfile.py b/cdtb/binfile.py
index 4528d60..c284727 100644
--- a/cdtb/binfile.py
+++ b/cdtb/binfile.py
@@ -45,7 +45,8 @@ class BinHashBase:
             if self.s is None:
                 return self.h == self.compute_hash(other)
             else:
-                return self.s == other
+                # hashes are computed on lowercased names
+                return self.s.lower() == other.lower()
         else:
             return self.h == other
 
-- 
2.43.0


From 70563f8894ac26aa258f183da4f8e1a5c11bece1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 35/40] fix: give no path, or the older one, for missing TFT
 icons instead of 'None'

---
 cdtb/tftdata.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/cdtb/tftdata.py b/cdtb/tftdata.py
index b848203..43655b1 100644
--- a/cdtb/tftdata.py
+++ b/cdtb/tftdata.py
@@ -32,6 +32,11 @@ def collect_effects(data):
     return {}
 
 
+def path_to_str(path):
+    """Return a path as a string, or `None` if there is no path"""
+    return None if path is None else str(path)
+
+
 class TftTransformer:
     def __init__(self, input_dir, game_version=1502):
         self.input_dir = input_dir
@@ -215,7 +220,7 @@ class TftTransformer:
                 "name": item.getv("mDisplayNameTra"),
                 "apiName": item.getv("mName"),
                 "desc": item.getv("mDescriptionNameTra"),
-                "icon": str(item.getv("mIconPath")),
+                "icon": path_to_str(item.getv("mIconPath")),
                 "isAugment": item.getv("IsAugment", False),
                 "unique": item.getv("mIsUnique", False),
                 "composition": [x.h for x in item.getv("mComposition", [])],  # updated below
@@ -311,9 +316,9 @@ class TftTransformer:
                 "characterName": record.getv("mCharacterName"),
                 "name": champ.getv("mDisplayNameTra"),
                 "cost": cost,
-                "icon": str(champ.getv("PcSplashPath")) or champ.getv("mIconPath"),
-                "tileIcon": str(champ.getv("TeamPlannerPortraitPath")),
-                "squareIcon": str(champ.getv("SquareSplashPath")),
+                "icon": path_to_str(champ.getv("PcSplashPath") or champ.getv("mIconPath")),
+                "tileIcon": path_to_str(champ.getv("TeamPlannerPortraitPath")),
+                "squareIcon": path_to_str(champ.getv("SquareSplashPath")),
                 "traits": [traits[h]["name"] for h in champ_traits if h in traits],
                 "role": role,
                 "stats": {
@@ -331,7 +336,7 @@ class TftTransformer:
                 "ability": {
                     "name": champ.getv("mAbilityNameTra") or spell_key_name,
                     "desc": champ.getv("mDescriptionTra") or spell_key_tooltip,
-                    "icon": str(champ.getv("AbilityIconPath")) or champ.getv("mPortraitIconPath"),
+                    "icon": path_to_str(champ.getv("AbilityIconPath") or champ.getv("mPortraitIconPath")),
                     "variables": ability_variables,
                 },
             }, champ_traits)
@@ -370,7 +375,7 @@ class TftTransformer:
                 "apiName": trait.getv("mName"),
                 "name": trait.getv("mDisplayNameTra"),
                 "desc": trait.getv("mDescriptionNameTra"),
-                "icon": str(trait.getv("mIconPath")),
+                "icon": path_to_str(trait.getv("mIconPath")),
                 "effects": effects,
             }
 
-- 
2.43.0


From 5ab5de30b35e6e7dcf2d2931170d66064aea9409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 36/40] fix: give no path for missing Arena icons instead of
 'none'

---
 cdtb/arenadata.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cdtb/arenadata.py b/cdtb/arenadata.py
index b159cf3..db122c3 100644
--- a/cdtb/arenadata.py
+++ b/cdtb/arenadata.py
@@ -58,6 +58,9 @@ class ArenaTransformer:
         augment_entries = [x for x in map30.entries if x.type == "AugmentData"]
         spellobject_entries = {x.path: x for x in map30.entries if x.type == "SpellObject"}
 
+        def convert_path(path):
+            return None if path is None else convert_cdragon_path(str(path))
+
         augments = []
         for augment in augment_entries:
             if not augment.getv("enabled", True):
@@ -80,8 +83,8 @@ class ArenaTransformer:
                 "name": augment.getv("NameTra"),
                 "desc": augment.getv("DescriptionTra"),
                 "tooltip": augment.getv("AugmentTooltipTra"),
-                "iconSmall": convert_cdragon_path(str(augment.getv("AugmentSmallIconPath"))),
-                "iconLarge": convert_cdragon_path(str(augment.getv("AugmentLargeIconPath"))),
+                "iconSmall": convert_path(augment.getv("AugmentSmallIconPath")),
+                "iconLarge": convert_path(augment.getv("AugmentLargeIconPath")),
                 "rarity": augment.getv("rarity", 0),
                 "dataValues": augment_datavalues,
                 "calculations": augment_calculations,
-- 
2.43.0


From 30ca7883821d8cb931114fb1f8b09562a6eb84cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 37/40] fix: skip TFT sets without script data instead of
 failing

---
 cdtb/tftdata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdtb/tftdata.py b/cdtb/tftdata.py
index 43655b1..9885196 100644
--- a/cdtb/tftdata.py
+++ b/cdtb/tftdata.py
@@ -165,8 +165,8 @@ class TftTransformer:
             set_trait_lists = item.getv("TraitLists")
             if set_trait_lists is None:
                 continue
-            set_info = item.getv("ScriptData")
-            set_name = set_info["SetName"].getv("mValue")
+            set_info = item.getv("ScriptData", {})
+            set_name = set_info["SetName"].getv("mValue") if "SetName" in set_info else None
 
             if set_number is None or set_name is None:
                 continue
-- 
2.43.0


From 185f048d76fe871331334f4c15abc8a462c0cd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 38/40] fix: read text translations from the first line and
 with any line ending

---
 cdtb/tftdata.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cdtb/tftdata.py b/cdtb/tftdata.py
index 9885196..2e1f95e 100644
--- a/cdtb/tftdata.py
+++ b/cdtb/tftdata.py
@@ -8,17 +8,18 @@ from .tools import json_dump, stringtable_paths
 
 def load_translations(path, game_version=1502):
     with open(path, "rb") as f:
-        if f.read(3) == b"RST":
-            f.seek(0)
+        magic = f.read(3)
+        f.seek(0)
+        if magic == b"RST":
             return RstFile(f, game_version)
         else:
             translations = {}
             for line in f:
                 if line.startswith(b'tr "'):
-                    line = line.decode()
+                    line = line.decode().rstrip("\r\n")
                     key, val = line.split("=", 1)
                     key = key[4:-2]
-                    val = val[2:-2]
+                    val = val[2:-1]
                     translations[key] = val
             return translations
 
-- 
2.43.0


From d1ec5583c65d7c02b9891b2dff1be2517e71e395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:29 +0000
Subject: [PATCH 39/40] fix: find string tables in directories whose name has
 special characters

---
 cdtb/tools.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cdtb/tools.py b/cdtb/tools.py
index 68316f1..4449bb6 100644
--- a/cdtb/tools.py
+++ b/cdtb/tools.py
@@ -94,14 +94,16 @@ def stringtable_paths(base_dir, game):
     # - <lang>/data/menu/en_us/<game>.stringtable
     #   (game is either `lol` or `tft`)
 
+    escaped_dir = glob.escape(base_dir)
+
     # Find the current format in order from newest to oldest
-    lang_dict = {re.search(rf"(.._..)/data/menu/en_us/{game}\.stringtable$", path.replace('\\', '/')).group(1): path for path in glob.glob(os.path.join(base_dir, f"??_??/data/menu/en_us/{game}.stringtable"))}
+    lang_dict = {re.search(rf"(.._..)/data/menu/en_us/{game}\.stringtable$", path.replace('\\', '/')).group(1): path for path in glob.glob(os.path.join(escaped_dir, f"??_??/data/menu/en_us/{game}.stringtable"))}
     if not lang_dict:
-        lang_dict = {re.search(r"(.._..)/data/menu/en_us/main\.stringtable$", path.replace('\\', '/')).group(1): path for path in glob.glob(os.path.join(base_dir, "??_??/data/menu/en_us/main.stringtable"))}
+        lang_dict = {re.search(r"(.._..)/data/menu/en_us/main\.stringtable$", path.replace('\\', '/')).group(1): path for path in glob.glob(os.path.join(escaped_dir, "??_??/data/menu/en_us/main.stringtable"))}
     if not lang_dict:
-        lang_dict = {re.search(r"data/menu/main_(.._..)\.stringtable$", path.replace('\\', '/')).group(1): path for path in glob.glob(os.path.join(base_dir, "data/menu/main_??_??.stringtable"))}
+        lang_dict = {re.search(r"data/menu/main_(.._..)\.stringtable$", path.replace('\\', '/')).group(1): path for path in glob.glob(os.path.join(escaped_dir, "data/menu/main_??_??.stringtable"))}
     if not lang_dict:
-        lang_dict = {re.search(r"data/menu/fontconfig_(.._..)\.txt$", path.replace('\\', '/')).group(1): path for path in glob.glob(os.path.join(base_dir, "data/menu/fontconfig_??_??.txt"))}
+        lang_dict = {re.search(r"data/menu/fontconfig_(.._..)\.txt$", path.replace('\\', '/')).group(1): path for path in glob.glob(os.path.join(escaped_dir, "data/menu/fontconfig_??_??.txt"))}
     if lang_dict:
         return lang_dict
     else:
-- 
2.43.0


From 39591dfd8b067a2f1224f6301ccb4f4b519edc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:47 +0000
Subject: [PATCH 40/40] fix: guessing the type of content that looks like JSON
 never fails

---
 cdtb/wad.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdtb/wad.py b/cdtb/wad.py
index eb8ad09..ebdb67c 100644
--- a/cdtb/wad.py
+++ b/cdtb/wad.py
@@ -175,7 +175,8 @@ class WadFileHeader:
         try:
             json.loads(data)
             return 'json'
-        except (json.JSONDecodeError, UnicodeDecodeError):
+        except (ValueError, RecursionError):
+            # invalid JSON or encoding, but also oversized numbers and excessive nesting
             pass
 
         # Unknown
-- 
2.43.0

