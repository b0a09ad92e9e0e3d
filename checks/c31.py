"""C31: every supported texture format converts, with or without mipmaps."""
import struct
from vfa.q import *

RULE = """The conversion of textures is interpreted; the bytes handed to the image decoder and the raised exceptions are specialised for every format byte (0 to 255), both values of the mipmap flag, dimensions around block boundaries
and file lengths from 0 up. A format converts with mipmaps exactly if it converts without, the known formats do, and everything else (other formats, wrong magic, truncated header) raises FileConversionError before
the header is decoded. The produced bytes must be a DDS header with the dimensions of the texture and the pixel layout of the format, followed by the pixels: everything after the header of the texture, or, with mipmaps, the last bytes of
the file, as many as the largest mipmap takes with the block size and bytes per block of the announced layout."""

ACCEPT, ERROR, HEADER, PIXELS = "formats accepted with and without mipmaps", "anything else is a conversion error", "the header announces layout and dimensions", "the largest mipmap is cut with the sizes of the format"
CONVERT = "export.TexConverter.convert"
# layout of each known format: names of acceptable announced layouts
KNOWN = {0x0a: {"BC1"}, 0x0c: {"BC3"}, 0x0d: {"BC7"}, 0x0e: {"BC5"}, 0x14: {"BGRA8"}, 0x15: {"RGBA16"}}
FOURCC = {b"DXT1": "BC1", b"DXT2": "BC2", b"DXT3": "BC2", b"DXT4": "BC3", b"DXT5": "BC3", b"ATI1": "BC4", b"BC4U": "BC4", b"BC4S": "BC4", b"ATI2": "BC5", b"BC5U": "BC5", b"BC5S": "BC5"}
SIZES = {"BC1": (4, 8), "BC2": (4, 16), "BC3": (4, 16), "BC4": (4, 8), "BC5": (4, 16), "BC6H": (4, 16), "BC7": (4, 16), "BGRA8": (1, 4), "RGBA8": (1, 4), "RGBA16": (1, 8), "RGBA32": (1, 16)}
DIMS = ((1, 1), (4, 4), (5, 3), (7, 9), (8, 2), (13, 64), (256, 128), (1000, 601), (3, 1024))


def dxgi(n):
    for lo, hi, k in ((1, 4, "RGBA32"), (9, 14, "RGBA16"), (27, 32, "RGBA8"), (70, 72, "BC1"), (73, 75, "BC2"), (76, 78, "BC3"), (79, 81, "BC4"), (82, 84, "BC5"), (87, 87, "BGRA8"), (90, 91, "BGRA8"), (94, 96, "BC6H"), (97, 99, "BC7")):
        if lo <= n <= hi:
            return k
    return None


def size(layout, w, h):
    b, n = SIZES[layout]
    return n * ((w + b - 1) // b) * ((h + b - 1) // b)


def mips(layout, w, h):
    out = 0
    while True:
        out += size(layout, w, h)
        if w == h == 1:
            return out
        w, h = max(1, w >> 1), max(1, h >> 1)


def check(c):
    r = c.r
    f = c.prog.func(CONVERT)
    if f is None:
        r.und(ACCEPT, CONVERT, "not found")
        return
    i = c.run(CONVERT, opaque={"tools.write_file_or_remove", "tools.write_dir_or_remove"})
    w = f"{f.module.rel}:{f.node.lineno} in {CONVERT}"
    opens = [e for e in i.events if e.kind == "call" and e.name.endswith("Image.open") and e.args]
    data = [e.result for e in i.events if e.kind == "mcall" and e.name == "read" and e.recv is mk("param", "fin")]
    if not opens or len(set(data)) != 1:
        r.und(ACCEPT, w, "no decoded image")
        return
    data = data[0]
    where = opens[0].where()
    raises = [e for e in i.events if e.kind == "raise" and not any(x.op == "exc" for x in subterms(e.guard))]
    decodes = [e for e in i.events if e.kind == "call" and e.name == "struct.unpack"]
    rw = raises[-1].where() if raises else w
    state = {}

    def run(fmt, mip, dims, length=None, magic=b"TEX\0"):
        head = magic + struct.pack("<HHBBB?", *dims, 1, fmt, 0, mip)
        s = Bytes(data, head[:length] if length is not None else head, length if length is not None else 12 + 50000000)
        return s

    # which formats convert
    ok = {}
    for mip in (False, True):
        for fmt in range(256):
            s = run(fmt, mip, (16, 16))
            ok[fmt, mip] = outcome(s, raises, opens)
    und = [k for k, v in ok.items() if v is None]
    if und:
        r.und(ACCEPT, rw, f"format {und[0][0]:#x}, {'with' if und[0][1] else 'without'} mipmaps")
        return
    bad = None
    for fmt in range(256):
        a, b = ok[fmt, False], ok[fmt, True]
        if (a is True) != (b is True):
            bad = bad or f"format {fmt:#x} converts {'without' if a is True else 'with'} mipmaps only"
        if fmt in KNOWN and a is not True:
            bad = bad or f"format {fmt:#x} is not converted"
    r.ob(bad is None, ACCEPT, rw, bad or f"formats {', '.join(hex(f) for f in range(256) if ok[f, False] is True)}")
    bad = None
    for (fmt, mip), v in ok.items():
        if v is not True and v.name != "FileConversionError":
            bad = bad or f"format {fmt:#x}: {v.name}"
    r.ob(bad is None, ERROR, rw, bad or "other formats")
    # not textures
    bad = None
    for magic in (b"DDS ", b"TEX1", b"\0\0\0\0", b"tex\0"):
        for fmt in (0x0a, 0x14):
            bad = bad or rejects(run(fmt, False, (16, 16), None, magic), raises, opens, decodes, f"magic {magic!r}")
    for n in range(12):
        bad = bad or rejects(run(0x0a, False, (16, 16), n), raises, opens, decodes, f"file of {n} bytes")
    r.ob(bad[0] if bad else True, ERROR, w, bad[1] if bad else "4 magics, 12 lengths")
    # contents
    res = {HEADER: True, PIXELS: True}
    for fmt in range(256):
        if ok[fmt, False] is not True:
            continue
        for mip in (False, True):
            if ok[fmt, mip] is not True:
                continue
            layout = None
            for dims in DIMS:
                s = run(fmt, mip, dims)
                got = produced(i, opens, s)
                what = f"format {fmt:#x}{' with mipmaps' if mip else ''}, {dims[0]}x{dims[1]}"
                if got is None:
                    res[HEADER] = res[HEADER] if res[HEADER] is not True else (None, f"{what}: produced bytes not known")
                    continue
                hb, rest = got
                verdict, detail, layout = header(hb, fmt, dims)
                if verdict is not True and (res[HEADER] is True or res[HEADER][0] is None):
                    res[HEADER] = (verdict, f"{what}: {detail}")
                if layout is None:
                    continue
                n = 12 + (mips if mip else size)(layout, *dims)
                s = Bytes(data, s.prefix, n)
                got = produced(i, opens, s)
                if got is None or got[1] is None:
                    v = (None, f"{what}: pixels not known")
                else:
                    lo, hi = got[1]
                    want = (n - size(layout, *dims), n)
                    v = True if (lo, hi) == want else (False, f"{what}: bytes {lo} to {hi} of {n} are taken, not {want[0]} to {want[1]}")
                if v is not True and (res[PIXELS] is True or res[PIXELS][0] is None):
                    res[PIXELS] = v
    for ob in (HEADER, PIXELS):
        v = res[ob]
        r.ob(True if v is True else v[0], ob, where, f"{len(DIMS)} dimensions" if v is True else v[1])


def outcome(s, raises, opens):
    """True if the texture is decoded, the exception event if it is refused, None if unknown."""
    for e in raises:
        g = s(e.guard)
        if g is TRUE:
            return e
        if g is not FALSE and tm.satisfiable(g):
            return None
    gs = [s(e.guard) for e in opens]
    return True if TRUE in gs else None


def rejects(s, raises, opens, decodes, what):
    for e in raises:
        if s(e.guard) is TRUE:
            if e.name != "FileConversionError":
                return False, f"{what}: {e.name}"
            for d in decodes:
                if d.seq < e.seq and s(d.guard) is TRUE and short(s, d):
                    return False, f"{what}: the header is decoded before the length is checked"
            return None
    for d in decodes:
        if s(d.guard) is TRUE and short(s, d) and not caught(d):
            return False, f"{what}: the header is decoded from too few bytes"
    gs = [s(e.guard) for e in opens]
    if TRUE in gs:
        return False, f"{what} is converted"
    return None, f"{what}: not known"


def short(s, d):
    f, x = d.args[0], s(d.args[1])
    return f.op == "const" and x.op == "const" and struct.calcsize(f.args[0]) > len(x.args[0]) or x is s.data and f.op == "const" and struct.calcsize(f.args[0]) > s.length


def caught(d):
    return any(z[1] == "body" for z in d.zones)


def produced(i, opens, s):
    """(header bytes, (start, end) of the pixels in the file) handed to the decoder."""
    for e in opens:
        if s(e.guard) is not TRUE:
            continue
        t = s(norm(e.args[0]))
        if t.op == "call" and t.args[0].endswith("BytesIO") and len(t.args) > 1:
            t = t.args[1]
        head, px = b"", None
        for x in concat(t):
            if x.op == "const" and isinstance(x.args[0], bytes) and px is None:
                head += x.args[0]
            elif x.op == "slice" and x.args[0] is s.data and all(y.op == "const" for y in x.args[1:3]) and px is None:
                b = s.bounds(x.args[1].args[0], x.args[2].args[0])
                px = (b.start, b.stop)
            elif x is s.data and px is None:
                px = (0, s.length)
            elif x.op == "const" and x.args[0] == b"":
                continue
            else:
                return None
        return head, px
    return None


def header(b, fmt, dims):
    """(verdict, detail, announced layout) of a DDS header."""
    if len(b) < 128 or b[:4] != b"DDS ":
        return False, "no DDS header", None
    n, flags, h, w = struct.unpack("<4L", b[4:20])
    pn, pf, fourcc, bits_, *masks = struct.unpack("<LL4sL4L", b[76:108])
    caps, = struct.unpack("<L", b[108:112])
    if n != 124 or pn != 32:
        return False, "structure sizes of the DDS header", None
    if (w, h) != dims:
        return False, f"dimensions {w}x{h} are announced", None
    if flags & 0x1007 != 0x1007 or not caps & 0x1000:
        return False, f"flags {flags:#x}, {caps:#x}", None
    layout = None
    extra = 0
    if pf & 4 and fourcc == b"DX10":
        extra = 20
        if len(b) < 148:
            return False, "no extended header", None
        d, dim, misc, count, _ = struct.unpack("<5L", b[128:148])
        if dim != 3 or count != 1:
            return False, "not a single two-dimensional texture", None
        layout = dxgi(d)
    elif pf & 4:
        layout = FOURCC.get(fourcc)
    elif pf & 0x40 and bits_ == 32:
        layout = {(0xff0000, 0xff00, 0xff, 0xff000000): "BGRA8", (0xff, 0xff00, 0xff0000, 0xff000000): "RGBA8"}.get(tuple(masks))
        if not pf & 1:
            layout = None
    if len(b) != 128 + extra:
        return False, f"a header of {len(b)} bytes", None
    if layout is None:
        return (False if fmt in KNOWN else None), "unknown layout", None
    if fmt in KNOWN and layout not in KNOWN[fmt]:
        return False, f"the layout {layout} is announced", layout
    return True, layout, layout
