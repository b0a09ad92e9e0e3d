X = "export.py"
CASES = [
    ("bad", X, '''            except ValueError as e:
                raise FileConversionError(f"failed to parse bin file: {e}")
            fout''', '''            except ValueError as e:
                logger.warning(f"failed to parse bin file: {e}")
                return
            fout''') ,
    ("bad", X, '''        try:
            rstfile = RstFile(output_path, self.game_version)
        except ValueError as e:
            raise FileConversionError(f"failed to parse rst file: {e}")
''', '''        try:
            rstfile = RstFile(output_path, self.game_version)
        except ValueError as e:
            logger.warning(f"failed to parse rst file: {e}")
            return
'''),
    ("bad", X, '''        rst_json = {"entries": {}, "version": rstfile.version}
''', '''        rst_json = {"entries": {}, "version": rstfile.version}
        if not rstfile.entries:
            return
'''),
    ("bad", X, '''        yield path
        yield os.path.splitext(path)[0]
''', '''        yield os.path.splitext(path)[0]
'''),
    ("bad", X, '''        yield path
        yield os.path.splitext(path)[0]
''', '''        yield path
        yield os.path.splitext(path)[0] + ".obj"
'''),
    ("ok", X, '''        yield path
        yield os.path.splitext(path)[0]
''', '''        base, _ = os.path.splitext(path)
        return [base, path]
'''),
    ("ok", X, '''        yield path
        yield os.path.splitext(path)[0]
''', '''        yield from (path, os.path.splitext(path)[0])
'''),
    ("bad", X, '''        obj_output_path = os.path.join(output, os.path.splitext(path)[0])
        shutil.rmtree''', '''        obj_output_path = os.path.join(output, os.path.dirname(path))
        shutil.rmtree'''),
    ("bad", X, '''        shutil.rmtree(obj_output_path, ignore_errors=True)
''', '''        shutil.rmtree(os.path.dirname(obj_output_path), ignore_errors=True)
'''),
    ("bad", X, '''        shutil.rmtree(obj_output_path, ignore_errors=True)
        with write_dir''', '''        with write_dir'''),
    ("bad", X, '''                with open(name, "w") as f:
                    f.write(sknfile.to_obj(entry))
''', '''                with open(name, "w") as f:
                    f.write(sknfile.to_obj(entry))
        os.remove(output_path)
'''),
    ("bad", X, '''                name = os.path.join(obj_output_path, entry["name"] + ".obj")''', '''                name = os.path.join(output, entry["name"] + ".obj")'''),
    ("bad", X, '''                name = os.path.join(obj_output_path, entry["name"] + ".obj")''', '''                name = obj_output_path + entry["name"] + ".obj"'''),
    ("ok", X, '''                name = os.path.join(obj_output_path, entry["name"] + ".obj")''', '''                name = f"{obj_output_path}/{entry['name']}.obj"'''),
    ("bad", X, '''class TexConverter(FileConverter):
    def __init__(self):
        pass

    def is_handled(self, path):
        return path.endswith('.tex')

    def converted_paths(self, path):
        yield os.path.splitext(path)[0] + '.png'
''', '''class TexConverter(FileConverter):
    def __init__(self):
        pass

    def is_handled(self, path):
        return path.endswith('.tex')

    def converted_paths(self, path):
        yield path + '.png'
'''),
    ("ok", X, '''class TexConverter(FileConverter):
    def __init__(self):
        pass

    def is_handled(self, path):
        return path.endswith('.tex')

    def converted_paths(self, path):
        yield os.path.splitext(path)[0] + '.png'

    def convert(self, fin, output, path):
        output_path = os.path.join(output, os.path.splitext(path)[0] + '.png')
''', '''class TexConverter(FileConverter):
    def __init__(self):
        pass

    def is_handled(self, path):
        return path.endswith('.tex')

    @staticmethod
    def _png(path):
        root, ext = os.path.splitext(path)
        return f"{root}.png"

    def converted_paths(self, path):
        yield self._png(path)

    def convert(self, fin, output, path):
        output_path = f"{output}/{self._png(path)}"
'''),
    ("bad", X, '''        return all(os.path.lexists(os.path.join(output, p)) for p in self.converted_paths(path))''', '''        return any(os.path.lexists(os.path.join(output, p)) for p in self.converted_paths(path))'''),
    ("bad", X, '''        return all(os.path.lexists(os.path.join(output, p)) for p in self.converted_paths(path))''', '''        return os.path.lexists(os.path.join(output, path))'''),
    ("bad", X, '''        return all(os.path.lexists(os.path.join(output, p)) for p in self.converted_paths(path))''', '''        return os.path.lexists(os.path.join(output, next(iter(self.converted_paths(path)))))'''),
    ("ok", X, '''        return all(os.path.lexists(os.path.join(output, p)) for p in self.converted_paths(path))''', '''        for p in self.converted_paths(path):
            if not os.path.lexists(os.path.join(output, p)):
                return False
        return True'''),
    ("bad", X, '''                converter = self._get_converter(wadfile.path)
''', '''                converter = self._get_converter(os.path.basename(wadfile.path))
'''),
    ("bad", X, '''        converter = self._get_converter(export_path)
''', '''        converter = self._get_converter(source_path)
'''),
    ("bad", X, '''        converter = self._get_converter(path)
        yield from''', '''        converter = self._get_converter(path.lower())
        yield from'''),
    ("bad", X, '''                converter.convert(fin, self.output, export_path)''', '''                converter.convert(fin, self.output, os.path.basename(export_path))'''),
    ("bad", X, '''not overwrite and converter.converted_paths_exist(self.output, wadfile.path)''', '''not overwrite and converter.converted_paths_exist(self.output, "game/" + wadfile.path)'''),
    ("bad", X, '''not overwrite and converter.converted_paths_exist(self.output, wadfile.path)''', '''not overwrite and converter.converted_paths_exist(os.path.dirname(self.output), wadfile.path)'''),
    ("ok", X, '''        yield path + '.json'

    def convert(self, fin, output, path):
        output_path = os.path.join(output, path)

        with write_file_or_remove(output_path + ".json", False) as fout:
            json_dump(self.parse_atlas''', '''        yield f"{path}.json"

    def convert(self, fin, output, path):
        content = self.parse_atlasinfo(fin)
        with write_file_or_remove(os.path.join(output, path + ".json"), False) as fout:
            json_dump(content, fout)
            return
            json_dump(self.parse_atlas'''),
    ("bad", X, '''        with write_file_or_remove(output_path + ".json", False) as fout:
            json_dump(self.parse_champ''', '''        with write_file_or_remove(os.path.splitext(output_path)[0] + ".json", False) as fout:
            json_dump(self.parse_champ'''),
    ("bad", X, '''class RstConverter(FileConverter):
    def __init__(self, regex, game_version=1502):
        self.regex = regex
''', '''class RstConverter(FileConverter):
    def converted_paths_exist(self, output, path):
        return os.path.lexists(os.path.join(output, path))

    def __init__(self, regex, game_version=1502):
        self.regex = regex
'''),
    ("bad", X, '''            except (OSError, NotImplementedError):
                # "OSError''', '''            except NotImplementedError:
                return
            except OSError:
                # "OSError'''),
    ("ok", X, '''        output_path = os.path.join(output, path)
        with write_file_or_remove(output_path) as fout:
            shutil.copyfileobj(fin, fout)

# use''', '''        with write_file_or_remove(os.path.join(output, path)) as fout:
            while True:
                block = fin.read(1 << 20)
                if not block:
                    break
                fout.write(block)

# use'''),
    ("bad", X, '''            for entry in sknfile.entries:
''', '''            if not sknfile.entries:
                os.rmdir(obj_output_path)
            for entry in sknfile.entries:
'''),
]
