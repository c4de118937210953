"""Writes minimal OpenEXR files (scan lines, optionally without compression) for use as inputs."""
import struct, zlib


def attr(name, typ, val):
    return name.encode() + b"\0" + typ.encode() + b"\0" + struct.pack("<i", len(val)) + val


def write(w, h, planes, half=False, compression=0, window=None):
    """PLANES: {channel name: rows of floats}.  Returns the bytes of a file."""
    names = sorted(planes)
    ch = b"".join(n.encode() + b"\0" + struct.pack("<iB3xii", 1 if half else 2, 0, 1, 1) for n in names) + b"\0"
    win = struct.pack("<4i", *(window or (0, 0, w - 1, h - 1)))
    hd = struct.pack("<ii", 20000630, 2)
    hd += attr("channels", "chlist", ch) + attr("compression", "compression", bytes([compression]))
    hd += attr("dataWindow", "box2i", win) + attr("displayWindow", "box2i", win)
    hd += attr("lineOrder", "lineOrder", b"\0") + attr("pixelAspectRatio", "float", struct.pack("<f", 1.0))
    hd += attr("screenWindowCenter", "v2f", struct.pack("<2f", 0, 0)) + attr("screenWindowWidth", "float", struct.pack("<f", 1.0)) + b"\0"
    per = {0: 1, 2: 1, 3: 16}[compression]
    blocks = []
    for y in range(0, h, per):
        raw = b""
        for yy in range(y, min(h, y + per)):
            for n in names:
                row = planes[n][yy * w:(yy + 1) * w]
                raw += struct.pack("<%d%s" % (w, "e" if half else "f"), *row)
        if compression:
            b = raw[0::2] + raw[1::2]
            d = bytes([b[0]]) + bytes((b[i] - b[i - 1] + 128) & 255 for i in range(1, len(b)))
            z = zlib.compress(d)
            raw = z if len(z) < len(raw) else raw
        blocks.append(struct.pack("<ii", y, len(raw)) + raw)
    off = len(hd) + 8 * len(blocks)
    tab = b""
    for b in blocks:
        tab += struct.pack("<q", off)
        off += len(b)
    return hd + tab + b"".join(blocks)
