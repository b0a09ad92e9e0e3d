W="wad.py"; X="export.py"; M="__main__.py"
we='''                if not overwrite and os.path.exists(output_path):
'''
xp='''        if not overwrite and converter.converted_paths_exist(self.output, export_path):
            return
'''
xw='''                if not overwrite and converter.converted_paths_exist(self.output, wadfile.path):
                    continue
'''
ce='''        return all(os.path.lexists(os.path.join(output, p)) for p in self.converted_paths(path))'''
exp='''            self._export_plain_file(export_path, source_path, overwrite)

        for wad in self.wads.values():
            self._export_wad(wad, overwrite)
'''
CASES=[
("bad",W,we,"                if os.path.exists(output_path):\n"),
("bad",W,we,"                if not overwrite and os.path.exists(wadfile.path):\n"),
("bad",W,we,"                if not overwrite and os.path.isdir(output):\n"),
("bad",W,we,"                if overwrite and os.path.exists(output_path):\n"),
("bad",W,we,"                if not overwrite:\n"),
("bad",W,we,"                if False:\n"),
("bad",W,["(already extracted)\")\n                    continue"],["(already extracted)\")\n                    break"]),
("bad",W,["(already extracted)\")\n                    continue"],["(already extracted)\")\n                    return"]),
("bad",W,"    def extract(self, output, overwrite=True):","    def extract(self, output, overwrite=False):"),
("bad",X,xp,xp.replace("self.output, export_path","self.output, source_path")),
("bad",X,xp,xp.replace("not overwrite and ","")),
("bad",X,xw,xw.replace("continue","break")),
("bad",X,xw,xw.replace("continue","return")),
("bad",X,xw,""),
("bad",X,[xw,"                if data is None:\n                    continue\n"],["","                if data is None or not overwrite and converter.converted_paths_exist(self.output, wadfile.path):\n                    continue\n"]),
("bad",X,xw,xw.replace("converter.","CopyConverter.singleton.")),
("bad",X,ce,ce.replace("all(","any(")),
("bad",X,ce,ce.replace("lexists","isfile")),
("bad",X,ce,ce.replace("os.path.join(output, p)","p")),
("bad",X,ce,"        return os.path.lexists(os.path.join(output, path))"),
("bad",X,exp,exp.replace("source_path, overwrite","source_path")),
("bad",X,exp,exp.replace("wad, overwrite","wad")),
("bad",X,"exporter.export(overwrite=overwrite)","exporter.export()"),
("bad",X,"exporter.export(overwrite=overwrite)","exporter.export(overwrite=overwrite or self.prev_patch is None)"),
("bad",M,"overwrite = not args.lazy","overwrite = args.lazy"),
("bad",M,"overwrite = not args.lazy","overwrite = not args.lazy or bool(args.previous)"),
("bad",M,"wad.extract(args.output, overwrite=not args.lazy)","wad.extract(args.output)"),
("bad",X,'''        output_path = os.path.join(output, path)
        with write_file_or_remove(output_path) as fout:
            shutil.copyfileobj(fin, fout)

# use''','''        output_path = os.path.join(output, path)
        if os.path.exists(output_path):
            return
        with write_file_or_remove(output_path) as fout:
            shutil.copyfileobj(fin, fout)

# use'''),
("bad","tools.py","with open(path, 'wb' if binary else 'w'","with open(path, 'xb' if binary else 'x'"),
("bad",M,'''    subparser.add_argument('--lazy', action='store_true',''','''    subparser.add_argument('--lazy', action='store_false','''),
# the set of files and what they are made from
("bad",X,"            for wadfile in wad.files:\n                if wadfile.path is None:","            for wadfile in wad.files[:1]:\n                if wadfile.path is None:"),
("bad",W,"            for wadfile in self.files:\n                output_path","            for wadfile in self.files[1:]:\n                output_path"),
("bad",X,"converter.convert(BytesIO(data), self.output, wadfile.path)","converter.convert(BytesIO(data[1:]), self.output, wadfile.path)"),
("bad",X,"converter.convert(BytesIO(data), self.output, wadfile.path)","converter.convert(BytesIO(data), self.output, wad.path)"),
("bad",X,"                converter = self._get_converter(wadfile.path)","                converter = self._get_converter(wad.path)"),
("bad",X,"                converter.convert(fin, self.output, export_path)","                converter.convert(fin, self.output, source_path)"),
("bad",X,"        with open(wad.path, 'rb') as fwad:\n            for wadfile in wad.files:","        with open(wad.path, 'rb') as fwad:\n            for wadfile in wad.files[::2]:"),
("bad",X,"        for wad in self.wads.values():\n            self._export_wad(wad, overwrite)","        for wad in list(self.wads.values())[:1]:\n            self._export_wad(wad, overwrite)"),
("bad",W,"                wadfile.extract(fwad, output_path, self.subchunk_toc)","                self.files[0].extract(fwad, output_path, self.subchunk_toc)"),
("bad",W,"                wadfile.extract(fwad, output_path, self.subchunk_toc)","                wadfile.extract(fwad, output_path)"),
("bad",X,"                if data is None:\n                    continue\n\n                try","                if data is None:\n                    break\n\n                try"),
# quiet
("ok",W,we,"                exists = os.path.exists(output_path)\n                if exists and not overwrite:\n"),
("ok",W,we,"                if not overwrite and os.path.lexists(output_path):\n"),
("ok",X,xp,'''        if not overwrite:
            if converter.converted_paths_exist(output=self.output, path=export_path):
                logger.debug("skip")
                return
'''),
("ok",X,xw,'''                skip = False
                if not overwrite:
                    skip = converter.converted_paths_exist(self.output, wadfile.path)
                if skip:
                    continue
'''),
("ok",X,ce,'''        for p in self.converted_paths(path):
            if not os.path.lexists(os.path.join(output, p)):
                return False
        return True'''),
("ok",X,ce,ce.replace("lexists","exists")),
("ok",X,exp,exp.replace("wad, overwrite","wad, overwrite=overwrite")),
("ok",M,"overwrite = not args.lazy","overwrite = False if args.lazy else True"),
("ok",X,xw,'''                if not overwrite and all(os.path.lexists(os.path.join(self.output, p)) for p in converter.converted_paths(wadfile.path)):
                    continue
'''),
("ok",X,"            for wadfile in wad.files:\n                if wadfile.path is None:","            for wadfile in list(wad.files):\n                if wadfile.path is None:"),
("ok",X,"                    converter.convert(BytesIO(data), self.output, wadfile.path)","                    content = BytesIO(data)\n                    converter.convert(content, self.output, wadfile.path)"),
("ok",W,"            for wadfile in self.files:\n                output_path = os.path.join(output, wadfile.path)","            for k in range(len(self.files)):\n                wadfile = self.files[k]\n                output_path = os.path.join(output, wadfile.path)"),
("ok",X,"        for wad in self.wads.values():\n            self._export_wad(wad, overwrite)","        for path in self.wads:\n            self._export_wad(self.wads[path], overwrite)"),
]
