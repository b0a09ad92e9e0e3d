X = "export.py"
WADH = '''                try:
                    converter.convert(BytesIO(data), self.output, wadfile.path)
                except FileConversionError as e:
                    logger.warning(f"cannot convert file '{wadfile.path}': {e}")
                except OSError as e:
                    # Path components longer than 255 are not supported, ignore such files
                    if e.errno in (errno.EINVAL, errno.ENAMETOOLONG):
                        logger.warning(f"ignore file with invalid path: {wadfile.path}")
                    else:
                        raise
'''
CASES = [
    ("bad", X, WADH, WADH.replace("except FileConversionError as e", "except ValueError as e")),
    ("bad", X, WADH, WADH.replace("except FileConversionError as e", "except Exception as e")),
    ("bad", X, WADH, WADH.replace("except FileConversionError as e", "except RuntimeError as e")),
    ("bad", X, WADH, WADH.replace("except FileConversionError as e", "except (FileConversionError, KeyError) as e")),
    ("bad", X, WADH, WADH.replace('''                    logger.warning(f"cannot convert file '{wadfile.path}': {e}")
''', '''                    logger.warning(f"cannot convert file '{wadfile.path}': {e}")
                    break
''')),
    ("bad", X, WADH, WADH.replace('''                    logger.warning(f"cannot convert file '{wadfile.path}': {e}")
''', '''                    logger.warning(f"cannot convert file '{wadfile.path}': {e}")
                    return
''')),
    ("bad", X, WADH, WADH.replace('''                    logger.warning(f"cannot convert file '{wadfile.path}': {e}")
''', '''                    pass
''')),
    ("bad", X, WADH, WADH.replace('''                    logger.warning(f"cannot convert file '{wadfile.path}': {e}")
''', '''                    logger.warning(f"cannot convert file '{wadfile.path}': {e}")
                    if not overwrite:
                        raise
''')),
    ("bad", X, WADH, WADH.replace("(errno.EINVAL, errno.ENAMETOOLONG)", "(errno.EINVAL, errno.ENAMETOOLONG, errno.ENOSPC)")),
    ("bad", X, WADH, WADH.replace('''                    else:
                        raise
''', "")),
    ("bad", X, WADH, WADH.replace("if e.errno in (errno.EINVAL, errno.ENAMETOOLONG):", "if e.errno != errno.ENOSPC:")),
    ("ok", X, WADH, WADH.replace('''                    if e.errno in (errno.EINVAL, errno.ENAMETOOLONG):
                        logger.warning(f"ignore file with invalid path: {wadfile.path}")
                    else:
                        raise
''', '''                    if e.errno != errno.EINVAL and e.errno != errno.ENAMETOOLONG:
                        raise
                    logger.warning(f"ignore file with invalid path: {wadfile.path}")
''')),
    ("bad", X, '''        with open(wad.path, 'rb') as fwad:
            for wadfile in wad.files:
                if wadfile.path is None:
                    continue

                converter''', '''        with open(wad.path, 'rb') as fwad:
            for wadfile in wad.files:
                if wadfile.path is None:
                    return

                converter''') if False else ("bad", X, WADH, WADH.replace("except FileConversionError as e:\n", "except FileConversionError as e:\n                    if wadfile.path.endswith('.bin'):\n                        raise\n")),
    ("ok", X, WADH, '''                self._convert_entry(converter, data, wadfile.path)

    def _convert_entry(self, converter, data, path):
        try:
            converter.convert(BytesIO(data), self.output, path)
        except FileConversionError as e:
            logger.warning("cannot convert file '%s': %s", path, e)
            return
        except OSError as e:
            if e.errno not in (errno.EINVAL, errno.ENAMETOOLONG):
                raise
            logger.warning(f"ignore file with invalid path: {path}")
'''),
    ("ok", X, WADH, '''                try:
                    converter.convert(BytesIO(data), self.output, wadfile.path)
                except (FileConversionError, OSError) as e:
                    if isinstance(e, FileConversionError):
                        logger.warning(f"cannot convert file '{wadfile.path}': {e}")
                    elif e.errno in (errno.EINVAL, errno.ENAMETOOLONG):
                        logger.warning(f"ignore file with invalid path: {wadfile.path}")
                    else:
                        raise
'''),
    ("bad", X, '''        try:
            with open(source_path, 'rb') as fin:
                converter.convert(fin, self.output, export_path)
        except FileConversionError as e:
            logger.warning(f"cannot convert file '{source_path}': {e}")
''', '''        with open(source_path, 'rb') as fin:
            converter.convert(fin, self.output, export_path)
'''),
    ("bad", X, '''        for export_path, source_path in self.plain_files.items():
            self._export_plain_file(export_path, source_path, overwrite)
''', '''        try:
            for export_path, source_path in self.plain_files.items():
                self._export_plain_file(export_path, source_path, overwrite)
        except OSError as e:
            logger.warning(f"cannot export: {e}")
'''),
    ("bad", X, '''            except ValueError as e:
                raise FileConversionError(f"failed to parse bin file: {e}")
''', '''            except struct.error as e:
                raise FileConversionError(f"failed to parse bin file: {e}")
'''),
    ("bad", X, '''            try:
                sknfile = SknFile(output_path)
            except ValueError as e:
                raise FileConversionError(f"failed to parse skn file: {e}")
''', '''            sknfile = SknFile(output_path)
'''),
    ("bad", X, '''            except ValueError as e:
                raise FileConversionError(f"failed to parse skn file: {e}")
''', '''            except ValueError as e:
                raise RuntimeError(f"failed to parse skn file: {e}")
'''),
    ("bad", X, '''            raise FileConversionError("invalid TEX file")''', '''            raise ValueError("invalid TEX file")'''),
    ("bad", X, '''            raise FileConversionError("invalid magic code")''', '''            raise ValueError("invalid magic code")'''),
    ("bad", "rstfile.py", '''raise ValueError(f"unsupported RST version''', '''raise NotImplementedError(f"unsupported RST version'''),
    ("bad", "binfile.py", '''                raise ValueError(f"unsupported patch header: {patch_header}")''', '''                raise RuntimeError(f"unsupported patch header: {patch_header}")'''),
    ("bad", X, '''            except (OSError, NotImplementedError):
                # "OSError''', '''            except NotImplementedError:
                # "OSError'''),
    ("bad", X, '''                fpng = BytesIO()
                im.save(fpng, 'PNG')
            except (OSError, NotImplementedError):
                # "OSE''', '''                fpng = BytesIO()
                im.save(fout)
            except (OSError, NotImplementedError):
                # "OSE'''),
    ("ok", X, '''class FileConversionError(RuntimeError):
    pass
''', '''class FileConversionError(ValueError):
    pass
'''),
    ("ok", X, '''class FileConversionError(RuntimeError):
    pass
''', '''class FileConversionError(Exception):
    pass
'''),
    ("ok", X, '''        try:
            rstfile = RstFile(output_path, self.game_version)
        except ValueError as e:
            raise FileConversionError(f"failed to parse rst file: {e}")
''', '''        rstfile = self._parse(output_path)
''') if False else ("ok", X, '''        try:
            rstfile = RstFile(output_path, self.game_version)
        except ValueError as e:
            raise FileConversionError(f"failed to parse rst file: {e}")
''', '''        try:
            rstfile = RstFile(output_path, self.game_version)
        except (ValueError, TypeError) as e:
            raise FileConversionError(f"failed to parse rst file: {e}") from e
'''),
]
