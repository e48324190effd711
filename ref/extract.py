#!/usr/bin/env python3
"""Independent reference for the fonts: reads the sprite sheets, index and alias
files of a codegen directory (not the generated rust fonts, and no code of the
generator) and writes one binary file of glyph bitmaps and clusters.

usage: extract.py CODEGEN_DIR OUT.bin

Layout (little endian): b"REF1", then for each of Emoji, Hanzi, Bold, Regular,
Small: u8 height, u32 seed, u16 blocks {u32 lo, u32 hi}, u32 glyphs
{u8 w, u8 h, u8 y, h * u32 row (bit i = column i)}, u32 clusters
{u8 n, n * u32 code point, u32 glyph}.
"""
import json, os, struct, sys, zlib


def read_png(path):
    """Return (width, height, rows) with rows[y][x] True where the pixel is black."""
    b = open(path, "rb").read()
    assert b[:8] == b"\x89PNG\r\n\x1a\n"
    i, idat, plte = 8, b"", None
    while i < len(b):
        n, typ = struct.unpack(">I4s", b[i:i + 8])
        d = b[i + 8:i + 8 + n]
        if typ == b"IHDR":
            w, h, depth, color, _, _, inter = struct.unpack(">IIBBBBB", d)
            assert inter == 0 and color in (0, 3)
        elif typ == b"PLTE":
            plte = [tuple(d[j:j + 3]) for j in range(0, len(d), 3)]
        elif typ == b"IDAT":
            idat += d
        i += 12 + n
    raw = zlib.decompress(idat)
    stride = (w * depth + 7) // 8
    bpp = max(1, depth // 8)
    prev = bytearray(stride)
    rows, p = [], 0
    for _ in range(h):
        f = raw[p]
        line = bytearray(raw[p + 1:p + 1 + stride])
        p += 1 + stride
        if f == 1:
            for x in range(bpp, stride):
                line[x] = (line[x] + line[x - bpp]) & 255
        elif f == 2:
            for x in range(stride):
                line[x] = (line[x] + prev[x]) & 255
        elif f == 3:
            for x in range(stride):
                line[x] = (line[x] + (((line[x - bpp] if x >= bpp else 0) + prev[x]) >> 1)) & 255
        elif f == 4:
            for x in range(stride):
                a = line[x - bpp] if x >= bpp else 0
                c = prev[x - bpp] if x >= bpp else 0
                u = prev[x]
                q = a + u - c
                pa, pb, pc = abs(q - a), abs(q - u), abs(q - c)
                pr = a if pa <= pb and pa <= pc else (u if pb <= pc else c)
                line[x] = (line[x] + pr) & 255
        prev = line
        per = 8 // depth
        mask = (1 << depth) - 1
        px = []
        for x in range(w):
            v = (line[x // per] >> ((per - 1 - x % per) * depth)) & mask
            px.append((plte[v][0] if color == 3 else v) == 0)
        rows.append(px)
    return w, h, rows


def cluster(hexes):
    return tuple(int(h, 16) for h in hexes.split("-"))


def read_index(gs, base):
    """Yield (cluster, row, col)."""
    path = os.path.join(base, gs["index"])
    if gs["indexType"] == "json-grid-coord":
        return [(cluster(m["hex"] if "hex" in m else m["Hex"]),
                 m.get("row", m.get("Row")), m.get("col", m.get("Col")))
                for m in json.load(open(path))["map"]]
    out = []
    for line in open(path, encoding="utf-8"):
        t = line.split("#")[0].strip()
        if t:
            n = len(out)
            out.append((cluster(t), n // gs["cols"], n % gs["cols"]))
    return out


def read_aliases(gs, base):
    if not gs["aliases"]:
        return []
    out = []
    for line in open(os.path.join(base, gs["aliases"]), encoding="utf-8"):
        t = line.split("#")[0].strip().split(" ")
        if len(t) == 2 and t[0] and t[1]:
            out.append((cluster(t[0]), cluster(t[1])))
    return out


def glyph_at(rows, gs, row, col):
    """Return (w, h, y_offset, row words): the sprite without its blank margins."""
    s, pitch, b = gs["size"], gs["size"] + gs["gutter"], gs["border"]
    x0, y0 = b + col * pitch, b + row * pitch
    n = pitch - b  # pixels of a cell that belong to the glyph
    cell = [[rows[y0 + y][x0 + x] for x in range(n)] for y in range(n)]
    if gs["name"] in ("Bold", "Regular", "Small") and row == 0 and col == 2:
        # the space: blank margins up to these limits are trimmed
        lim_x, lim_y = s // 2 - 2, s // 2 - 1
    elif gs["glyphTrim"] == "CJK" and gs["name"] not in ("Bold", "Regular", "Small"):
        lim_x = lim_y = 0
    else:
        lim_x = lim_y = s

    def blank_run(lines, lim):
        k = 0
        while k < lim and k < len(lines) and not any(lines[k]):
            k += 1
        return k
    cols = list(zip(*cell))
    left = blank_run(cols, lim_x)
    right = blank_run(cols[left:][::-1], lim_x)
    cell = [r[left:n - right] for r in cell]
    top = blank_run(cell, lim_y)
    bottom = blank_run(cell[top:][::-1], lim_y)
    cell = cell[top:n - bottom]
    w = n - left - right
    return w, len(cell), top, [sum(1 << i for i, v in enumerate(r) if v) for r in cell]


BLOCKS = [(0x0000, 0x007F), (0x0080, 0x00FF), (0x0100, 0x017F), (0x2000, 0x206F), (0x20A0, 0x20CF),
          (0x2100, 0x214F), (0x2190, 0x21FF), (0x2300, 0x23FF), (0x2460, 0x24FF), (0x25A0, 0x25FF),
          (0x2600, 0x26FF), (0x2700, 0x27BF), (0x2900, 0x297F), (0x2B00, 0x2BFF), (0x3000, 0x303F),
          (0x3200, 0x32FF), (0x3400, 0x4DBF), (0x4E00, 0x9FFF), (0xE000, 0xF8FF), (0xFF00, 0xFFEF),
          (0xFFF0, 0xFFFF), (0x1F000, 0x1F02F), (0x1F0A0, 0x1F0FF), (0x1F100, 0x1F1FF),
          (0x1F200, 0x1F2FF), (0x1F300, 0x1F5FF), (0x1F600, 0x1F64F), (0x1F680, 0x1F6FF),
          (0x1F780, 0x1F7FF), (0x1F900, 0x1F9FF), (0x1FA70, 0x1FAFF), (0x20000, 0x2A6DF),
          (0x2A700, 0x2B73F), (0x2B740, 0x2B81F), (0x2B820, 0x2CEAF), (0x2CEB0, 0x2EBEF),
          (0x2F800, 0x2FA1F), (0x30000, 0x3134F)]


def extract(base, conf=None):
    """Return {name: (size, seed, glyphs, {cluster: glyph number})}."""
    conf = conf or json.load(open(os.path.join(base, "config.json")))
    fonts = {}
    for gs in conf["glyphSets"]:
        _, _, rows = read_png(os.path.join(base, gs["sprites"]))
        glyphs, table = [], {}
        for cl, r, c in read_index(gs, base):
            table[cl] = len(glyphs)
            glyphs.append(glyph_at(rows, gs, r, c))
        for canon, alias in read_aliases(gs, base):
            table[alias] = table[canon]
        fonts[gs["name"]] = (gs["size"], gs["m3Seed"], glyphs, table)
    return fonts


def pack(fonts):
    out = [b"REF1"]
    for name in ("Emoji", "Hanzi", "Bold", "Regular", "Small"):
        size, seed, glyphs, table = fonts[name]
        used = sorted({next(b for b in BLOCKS if b[0] <= cl[0] <= b[1]) for cl in table})
        out.append(struct.pack("<BIH", size, seed, len(used)))
        out += [struct.pack("<II", *b) for b in used]
        out.append(struct.pack("<I", len(glyphs)))
        for w, h, y, rows in glyphs:
            out.append(struct.pack("<BBB%dI" % h, w, h, y, *rows))
        out.append(struct.pack("<I", len(table)))
        for cl in sorted(table):
            out.append(struct.pack("<B%dII" % len(cl), len(cl), *cl, table[cl]))
    return b"".join(out)


if __name__ == "__main__":
    data = pack(extract(sys.argv[1]))
    open(sys.argv[2], "wb").write(data)
    print(len(data), "bytes")
