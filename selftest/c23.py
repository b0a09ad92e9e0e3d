M="__main__.py"
H="hashes.py"
l1='''        if nfound:
            print(f"found LCU hashes: {nfound}")
            if not args.dry_run:
                guesser.save()
'''
g1=l1.replace("LCU","game")
n1='''    if guesser.unknown:
        nunknown = len(guesser.unknown)
        if "grep" in method_names:
            for wad in guesser.wads:
                wad.guess_extensions()
                guesser.grep_wad(wad)
        if "numbers" in method_names:
            guesser.substitute_numbers()
        if "basenames" in method_names:
            guesser.substitute_basenames()
        if "words" in method_names:
            guesser.substitute_basename_words()
        if "ext" in method_names:
            guesser.substitute_extensions()
        if "regionlang"'''
nf="        nfound = nunknown - len(guesser.unknown)\n"
CASES=[
("bad",M,l1,l1.replace("            if not args.dry_run:\n                guesser.save()\n","            guesser.save()\n")),
("bad",M,g1,g1.replace("not args.dry_run","args.dry_run")),
("bad",M,g1,g1.replace("            if not args.dry_run:\n                guesser.save()\n","            if not args.dry_run:\n                pass\n")),
("bad",M,l1,'''        if nfound:
            print(f"found LCU hashes: {nfound}")
        if not args.dry_run:
            guesser.save()
'''),
("bad",M,l1,l1.replace("guesser.save()","guesser.hashfile.load(force=True)\n                guesser.save()").replace("if nfound:","if nfound > 1:")),
("bad",M,g1,g1.replace("not args.dry_run","not args.dry_run and args.methods")),
("bad",M,nf+g1,nf.replace("nunknown - len(guesser.unknown)","len(guesser.unknown)")+g1),
("ok",M,"    # guess game hashes\n    guesser = Game","    # guess game hashes\n    nlcu = len(guesser.unknown)\n    guesser = Game"),
("bad",M,[nf+g1],["        nfound = nunknown - len(guesser.known)\n"+g1]),
("bad",H,"        self.hashfile.save()","        hashfile_lcu.save()"),
("bad",H,"        self.hashfile.save()","        pass"),
("bad",H,"with open(self.filename, 'w', newline='', encoding='utf-8')","with open(default_hash_dir / 'hashes.txt', 'w', newline='')"),
("bad",M,"    subparser.add_argument('-n', '--dry-run', action='store_true',\n                           help=\"list new","    subparser.add_argument('-n', '--dry-run', action='store_false',\n                           help=\"list new"),
("bad",H,"        words = list(words) # Ensure words is a list\n","        words = list(words)\n        self.save()\n"),
("bad",M,"    wads = []\n    for path_or_component in args.wad:","    update_default_hashfile('hashes.game.txt')\n    wads = []\n    for path_or_component in args.wad:"),
("ok",M,l1,'''        if nfound and not args.dry_run:
            guesser.save()
        if nfound:
            print(f"found LCU hashes: {nfound}")
'''),
("ok",M,l1,'''        if nfound <= 0:
            pass
        else:
            print(f"found LCU hashes: {nfound}")
            dry = args.dry_run
            if dry:
                logger = None
            else:
                guesser.save()
'''),
("ok",M,[l1,g1,"def command_hashes_guess("],["        _finish('LCU', guesser, nfound, args.dry_run)\n","        _finish('game', guesser, nfound, args.dry_run)\n",'''def _finish(kind, guesser, nfound, dry):
    if not nfound:
        return
    print(f"found {kind} hashes: {nfound}")
    if dry:
        return
    guesser.save()


def command_hashes_guess(''']),
("ok",M,nf+l1,l1.replace("if nfound:","if len(guesser.unknown) < nunknown:").replace("{nfound}","{nunknown - len(guesser.unknown)}")),
("ok",M,nf+l1,"        remaining = len(guesser.unknown)\n"+l1.replace("if nfound:","if remaining != nunknown:").replace("{nfound}","{nunknown - remaining}")),
("ok",H,"        self.hashfile.save()","        hashfile = self.hashfile\n        logger.debug('saving')\n        hashfile.save()"),
("ok",H,"with open(self.filename, 'w', newline='', encoding='utf-8') as f:","path = self.filename\n        with open(path, mode='w', newline='') as f:"),
("ok",M,[n1,"    # guess LCU hashes\n    guesser = LcuHashGuesser.from_wads(wads)\n"],[n1,"    # guess LCU hashes\n    guesser = LcuHashGuesser.from_wads(wads)\n    assert wads is not None\n"]),
]
