F = "hashes.py"
LOOP = """        for i, v in enumerate(sequence):
            if interrupted:
                print("  %5.1f%%  %s" % (100 * i / len(sequence), formatter(v)))
                interrupted = False
            yield v
"""
CM = """    previous_handler = signal.signal(signal.SIGINT, signal_handler)
    try:
        yield
    finally:
        _handler_back = signal.signal(signal.SIGINT, previous_handler)
"""
H = """    def signal_handler(signal, frame):
        nonlocal tlast
        callback()
        tnow = time.time()
        if tnow - tlast < 0.5:
            raise KeyboardInterrupt()
        tlast = tnow
"""
CASES = [
    ("bad", F, "                interrupted = False\n            yield v", "                interrupted = False\n                continue\n            yield v"),
    ("bad", F, "                interrupted = False\n            yield v", "                interrupted = False\n            else:\n                yield v"),
    ("bad", F, "                interrupted = False\n            yield v", "                break\n            yield v"),
    ("bad", F, "                interrupted = False\n            yield v", "                yield v\n                interrupted = False\n            yield v"),
    ("bad", F, "                interrupted = False\n            yield v", "                interrupted = False\n            if i:\n                yield v"),
    ("bad", F, "enumerate(sequence):", "enumerate(sequence[1:]):"),
    ("bad", F, "        yield\n    finally:\n        _handler_back =", "        yield\n    except Exception:\n        _handler_back ="),
    ("bad", F, CM, "    previous_handler = signal.signal(signal.SIGINT, signal_handler)\n    yield\n    signal.signal(signal.SIGINT, previous_handler)\n"),
    ("bad", F, "signal.signal(signal.SIGINT, previous_handler)", "signal.signal(signal.SIGINT, signal.SIG_DFL)"),
    ("bad", F, "signal.signal(signal.SIGINT, previous_handler)", "signal.signal(signal.SIGINT, signal_handler)"),
    ("bad", F, "signal.signal(signal.SIGINT, previous_handler)", "signal.signal(signal.SIGTERM, previous_handler)"),
    ("bad", F, "        _handler_back = signal.signal(signal.SIGINT, previous_handler)", "        if tlast:\n            signal.signal(signal.SIGINT, previous_handler)"),
    ("bad", F, "    previous_handler = signal.signal(signal.SIGINT, signal_handler)", "    signal.signal(signal.SIGINT, signal_handler)\n    previous_handler = signal.getsignal(signal.SIGINT)"),
    ("bad", F, "signal.signal(signal.SIGINT, signal_handler)", "signal.signal(signal.SIGTERM, signal_handler)"),
    ("bad", F, "if tnow - tlast < 0.5:", "if tnow - tlast > 0.5:"),
    ("bad", F, "        tlast = tnow\n", "        tlast = tnow + 60\n"),
    ("bad", F, "        if tnow - tlast < 0.5:\n            raise KeyboardInterrupt()\n", "        raise KeyboardInterrupt()\n"),
    ("bad", F, "    tlast = 0\n", "    tlast = time.time()\n"),
    ("bad", F, "    with sigint_callback(handler):\n", "    if True:\n"),
    ("bad", F, "    if not os.isatty(sys.stderr.fileno()):\n        return sequence\n", "    if not os.isatty(sys.stderr.fileno()):\n        return\n"),
    ("bad", F, "return progress_iterate(sequence, formatter)", "progress_iterate(sequence, formatter)"),
    ("bad", F, "return progress_iterate(sequence, formatter)", "return progress_iterate(sequence[:100], formatter)"),
    ("bad", F, '"  %5.1f%%  %s" %', '"  %5.1f%  %s" %'),
    ("bad", F, '"  %5.1f%%  %s" % (100 * i / len(sequence), formatter(v))', '"  %5.1f%%  %s" % (100 * i / len(sequence), *formatter(v), 0)') if False else ("bad", F, '(100 * i / len(sequence), formatter(v))', '(100 * i / len(sequence), i, formatter(v))'),
    ("bad", F, "for prefix in progress_iterator(sorted(prefixes)):", "for prefix in progress_iterator(p for p in sorted(prefixes)):"),
    ("bad", F, "            yield v\n", "            try:\n                yield v\n            except KeyboardInterrupt:\n                pass\n"),
    ("bad", F, "        for i, v in enumerate(sequence):\n            if interrupted:", "        for i, v in enumerate(sequence):\n            if interrupted and not i:\n                raise KeyboardInterrupt\n            if interrupted:"),
    ("ok", F, LOOP, """        total = len(sequence)
        for i, v in enumerate(sequence):
            if not interrupted:
                yield v
                continue
            interrupted = False
            print(f"  {100 * i / total:5.1f}%  {formatter(v)}")
            yield v
"""),
    ("ok", F, LOOP, """        i = 0
        for v in sequence:
            if interrupted:
                show(i, v)
                interrupted = False
            yield v
            i += 1
"""),
    ("ok", F, CM, """    previous_handler = signal.getsignal(signal.SIGINT)
    signal.signal(signal.SIGINT, signal_handler)
    try:
        yield
    finally:
        signal.signal(signal.SIGINT, previous_handler)
"""),
    ("ok", F, CM, """    previous_handler = None
    try:
        previous_handler = signal.signal(signal.SIGINT, signal_handler)
        yield
    finally:
        if previous_handler is not None:
            signal.signal(signal.SIGINT, previous_handler)
"""),
    ("ok", F, H, """    def signal_handler(signum, frame):
        nonlocal tlast
        before, tlast = tlast, time.time()
        callback()
        if before and tlast - before < 0.5:
            raise KeyboardInterrupt()
"""),
    ("ok", F, "    tlast = 0\n" + H, "    tlast = None\n" + H.replace("if tnow - tlast < 0.5", "if tlast is not None and tnow - tlast < 0.5")),
    ("ok", F, "    if not os.isatty(sys.stderr.fileno()):\n        return sequence\n    return progress_iterate(sequence, formatter)", "    if sys.stderr.isatty():\n        sequence = progress_iterate(sequence, formatter)\n    return sequence"),
    ("ok", F, "    if not os.isatty(sys.stderr.fileno()):\n        return sequence\n    return progress_iterate(sequence, formatter)", "    if sys.stderr.isatty():\n        yield from progress_iterate(sequence, formatter)\n    else:\n        yield from sequence"),
]
