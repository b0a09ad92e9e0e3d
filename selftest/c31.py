E="export.py"
CASES=[
("bad",E,"elif format in (0x0c, 0x0d, 0x0e):  # DXT5, BC7 or BC5","elif format in (0x0c, 0x0d):"),
("bad",E,"            elif format == 0x15:  # RGBA16\n                block_size = 1\n                bytes_per_block = 8\n",""),
("bad",E,"                block_size = 4\n                bytes_per_block = 8","                block_size = 4\n                bytes_per_block = 16"),
("bad",E,"                block_size = 1\n                bytes_per_block = 8","                block_size = 1\n                bytes_per_block = 4"),
("bad",E,"                block_size = 1\n                bytes_per_block = 4","                block_size = 4\n                bytes_per_block = 64"),
("bad",E,"block_width = (width + block_size - 1) // block_size","block_width = width // block_size"),
("bad",E,"block_width = (width + block_size - 1) // block_size","block_width = (width + block_size) // block_size"),
("bad",E,"block_height = (height + block_size - 1) // block_size","block_height = (width + block_size - 1) // block_size"),
("bad",E,"pixels = data[-mipmap_size:]","pixels = data[12:12+mipmap_size]"),
("bad",E,"pixels = data[12:]","pixels = data[16:]"),
("bad",E,"'<4sHHxBx?', data[:12]","'<4sHHxB?x', data[:12]"),
("bad",E,"'<4sHHxBx?', data[:12]","'<4sHHBxx?', data[:12]"),
("bad",E,"_, width, height, format,","_, height, width, format,"),
("bad",E,"0x1007, height, width, ddspf","0x1007, width, height, ddspf"),
("bad",E,"b'DXT5')","b'DXT1')"),
("bad",E,"struct.pack('<LL4xLL', 99, 3, 1, 1)","struct.pack('<LL4xLL', 84, 3, 1, 1)"),
("bad",E,"            dx10 = struct.pack('<LL4xLL', 84, 3, 1, 1)\n            has_dx10 = True\n","            dx10 = struct.pack('<LL4xLL', 84, 3, 1, 1)\n"),
("bad",E,"if len(data) < 12 or data[:4] != b'TEX\\0':","if data[:4] != b'TEX\\0':"),
("bad",E,"if len(data) < 12 or data[:4] != b'TEX\\0':","if len(data) < 12:"),
("bad",E,"if len(data) < 12 or data[:4] != b'TEX\\0':","if len(data) < 8 or data[:4] != b'TEX\\0':"),
("bad",E,"            raise FileConversionError(f\"unsupported TEX format: {format:x}\")\n\n        if has","            raise ValueError(f\"unsupported TEX format: {format:x}\")\n\n        if has"),
("bad",E,"        elif format == 0x15: # RGBA16\n            ddspf","        elif format >= 0x15: # RGBA16\n            ddspf"),
("bad",E,"0x00ff0000, 0x0000ff00, 0x000000ff, 0xff000000","0x000000ff, 0x0000ff00, 0x00ff0000, 0xff000000"),
("bad",E,"            if format == 0x0a:  # DXT1\n                block","            if format == 0x0b:  # DXT1\n                block"),
("ok",E,"pixels = data[-mipmap_size:]","pixels = data[len(data)-mipmap_size:]"),
("ok",E,"            block_width = (width + block_size - 1) // block_size","            block_width = -(-width // block_size)"),
("ok",E,"            block_width = (width + block_size - 1) // block_size","            block_width = max(1, (width + block_size - 1) // block_size)"),
("ok",E,"            # Find mipmap count\n            n = max(width, height)\n            mipmap_count = 0\n            while n > 0:\n                mipmap_count += 1\n                n >>= 1\n",""),
("ok",E,"        if format == 0x0a:  # DXT1\n            ddspf = struct.pack('<LL4s20x', 32, 0x4, b'DXT1')\n        elif format == 0x0c:  # DXT5\n            ddspf = struct.pack('<LL4s20x', 32, 0x4, b'DXT5')\n","        fourcc = {0x0a: b'DXT1', 0x0c: b'DXT5'}\n        if format in fourcc:\n            ddspf = struct.pack('<LL4s20x', 32, 0x4, fourcc[format])\n"),
("ok",E,"            if format == 0x0a:  # DXT1\n                block_size = 4\n                bytes_per_block = 8\n            elif format in (0x0c, 0x0d, 0x0e):  # DXT5, BC7 or BC5\n                block_size = 4\n                bytes_per_block = 16\n            elif format == 0x14:  # BGRA8\n                block_size = 1\n                bytes_per_block = 4\n            elif format == 0x15:  # RGBA16\n                block_size = 1\n                bytes_per_block = 8\n            else:\n                # Note: already checked above\n                raise FileConversionError(f\"unsupported TEX format: {format:x}\")\n","            block_size, bytes_per_block = {0x0a: (4, 8), 0x0c: (4, 16), 0x0d: (4, 16), 0x0e: (4, 16), 0x14: (1, 4), 0x15: (1, 8)}[format]\n"),
("ok",E,"        dds_header = struct.pack('<4s4L56x32sL16x', b'DDS ', 124, 0x1007, height, width, ddspf, 0x1000)\n        if has_dx10:\n            dds_header += dx10\n        return dds_header + pixels","        parts = [b'DDS ', struct.pack('<4L56x', 124, 0x1007, height, width), ddspf, struct.pack('<L16x', 0x1000)]\n        if has_dx10:\n            parts.append(dx10)\n        parts.append(pixels)\n        return b''.join(parts)"),
("ok",E,"if len(data) < 12 or data[:4] != b'TEX\\0':","if len(data) < 12 or not data.startswith(b'TEX\\0'):"),
("ok",E,"_, width, height, format, has_mipmaps = struct.unpack('<4sHHxBx?', data[:12])","width, height = struct.unpack('<HH', data[4:8])\n        format, has_mipmaps = data[9], data[11] != 0"),
("ok",E,"        has_dx10 = False\n","        dx10 = b''\n        has_dx10 = False\n"),
]
