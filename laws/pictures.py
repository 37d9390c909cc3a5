# Laws of bitmaps in the output formats (C18, C21).
from laws.pagelib import *
from pyx import bitmap

SPACE = {"L": "DeviceGray", "LA": "DeviceGray", "RGB": "DeviceRGB", "RGBA": "DeviceRGB", "CMYK": "DeviceCMYK", "CMYKA": "DeviceCMYK", "ARGB": "DeviceRGB", "AL": "DeviceGray"}
PALETTE = (7, 130, 255, 1, 0, 200)

def data(w, h, mode, offset=0): return [(offset + 37*i) % 256 for i in range(w*h*len(mode))] if mode != "P" else [(i+offset) % 2 for i in range(w*h)]

def picturemark(fmt, w, h, mode, d, m, s=None, pal=PALETTE):
    if s is None: s = state()
    alpha = None
    if mode == "P":
        space = "DeviceRGB"
        px = tuple([tuple(pal[3*i:3*i+3]) for i in d])
    else:
        n = len(mode)
        space = SPACE[mode]
        px = tuple([tuple(d[n*i:n*i+n]) for i in range(w*h)])
        if mode[0] == "A":
            alpha = tuple([p[0] for p in px])
            px = tuple([p[1:] for p in px])
        elif mode[-1] == "A":
            alpha = tuple([p[-1] for p in px])
            px = tuple([p[:-1] for p in px])
    return ("picture", w, h, space, px, alpha, mul(m, s["ctm"]), s["alpha"], s["clips"])

def theimage(w, h, mode, d):
    if mode == "P": return bitmap.image(w, h, mode, bytes(d), palette=bitmap.palette("RGB", bytes(PALETTE)))
    return bitmap.image(w, h, mode, bytes(d))

MODES = ["L", "RGB", "CMYK", "LA", "RGBA", "P", "ARGB", "CMYKA"]
SVGMODES = ["L", "RGB", "LA", "RGBA", "P"]
CASES = [(f, m, k) for f in ("PS", "PDF") for m in MODES for k in (None, "Flate")] + [("SVG", m, "Flate") for m in SVGMODES]

def law_modes(case=CASES):
    "pictures of all kinds show the given data"
    setup()
    fmt, mode, k = case
    w, h = 3, 2
    d = data(w, h, mode)
    c = canvas.canvas()
    c.insert(bitmap.bitmap_pt(1, 2, theimage(w, h, mode, d), height_pt=10, compressmode=k))
    same(pictures(marks(fmt, c)), (picturemark(fmt, w, h, mode, d, (15, 0, 0, 10, 1, 2)), ("page",)))

def law_lengths(n=list(range(1, 11)) + [60, 61, 64, 120]):
    "data of any length"
    setup()
    for fmt in FORMATS:
        for bin in (1, 2) if fmt == "PS" else (1,):
            d = data(n, 1, "L")
            c = canvas.canvas()
            c.insert(bitmap.bitmap_pt(0, 0, theimage(n, 1, "L", d), height_pt=2, width_pt=8, compressmode="Flate" if fmt == "SVG" else None, PSbinexpand=bin))
            same(pictures(marks(fmt, c)), (picturemark(fmt, n, 1, "L", d, (8, 0, 0, 2, 0, 0)), ("page",)))

def law_zeros():
    setup()
    for n in (4, 7, 8):
        for bin in (1, 2):
            c = canvas.canvas()
            c.insert(bitmap.bitmap_pt(0, 0, theimage(n, 1, "L", [0]*n), height_pt=2, width_pt=8, compressmode=None, PSbinexpand=bin))
            same(pictures(marks("PS", c)), (picturemark("PS", n, 1, "L", [0]*n, (8, 0, 0, 2, 0, 0)), ("page",)))

def law_stored(case=[(m, k, l) for m in ("L", "RGBA", "P") for k in (None, "Flate") for l in (4, 5, 24, 4093)]):
    "pictures stored in the prolog"
    setup()
    mode, k, l = case
    w, h = 4, 3
    d = data(w, h, mode)
    c = canvas.canvas()
    # twice, as the data are read from their begin again
    for x in (1, 30):
        c.insert(bitmap.bitmap_pt(x, 2, theimage(w, h, mode, d), height_pt=12, compressmode=k, PSstoreimage=1, PSmaxstrlen=l))
    same(pictures(marks("PS", c)), (picturemark("PS", w, h, mode, d, (16, 0, 0, 12, 1, 2)), picturemark("PS", w, h, mode, d, (16, 0, 0, 12, 30, 2)), ("page",)))

def law_state(fmt=FORMATS):
    "attributes of the canvas apply"
    setup(); nobbox()
    trust("pyx.bitmap.bitmap_trafo.bbox", lambda self: bbox.bbox_pt(0, 0, 100, 100))
    d = data(2, 2, "RGB")
    c = canvas.canvas()
    s = c.insert(canvas.canvas([definitetrafo(), boxclip(), color.transparency(0.25)]))
    s.insert(bitmap.bitmap_trafo(trafo.trafo_pt(((num("a"), num("b")), (num("c"), num("d"))), (num("e"), num("f"))), theimage(2, 2, "RGB", d)))
    assume(num("a")*num("d") - num("b")*num("c") != 0)
    m = (num("a"), num("c"), num("b"), num("d"), num("e"), num("f"))
    got = pictures(marks(fmt, c))
    want = picturemark(fmt, 2, 2, "RGB", d, m, state(ctm=TM1, clips=((CLIPSEGS, 0),), alpha=0.75))
    same(got, (want, ("page",)))

def law_size(case=[(w, h, r) for w in (None, 12) for h in (None, 9) for r in (None, 2)]):
    "size of the picture from its width, height and ratio"
    w, h, r = case
    d = data(2, 4, "L")
    b = outcome(lambda: bitmap.bitmap_pt(5, 6, theimage(2, 4, "L", d), width_pt=w, height_pt=h, ratio=r, compressmode=None))
    if (w is None) and (h is None): check(b[0] == "raise", "no size given")
    elif w is not None and h is not None:
        if r is not None: check(b[0] == "raise", "too many sizes")
        else: same(b[1].bbox().highrestuple_pt(), (5, 6, 17, 15))
    else:
        r = 0.5 if r is None else r
        if w is None: w = h*r
        else: h = w/r
        same(b[1].bbox().highrestuple_pt(), (5, 6, 5+w, 6+h))

# --- identity of pictures (C21) ---
PAIRS = {
 "size": ((6, 1, "L", 0), (2, 3, "L", 0)),
 "mode": ((3, 1, "L", 0), (1, 1, "RGB", 0)),
 "data": ((3, 1, "L", 0), (3, 1, "L", 1)),
 "alpha": ((3, 1, "LA", 0), (3, 1, "L", 0)),
 "palette": ((4, 1, "P", 0), (4, 1, "L", None)),
}
def law_identity(case=[(f, n) for f in FORMATS for n in ("size", "mode", "data", "alpha", "palette", "alpha data", "palette data")]):
    "different pictures stay different"
    setup()
    fmt, n = case
    c = canvas.canvas()
    if n == "alpha data":
        l = [theimage(2, 1, "LA", [1, 2, 3, 4]), theimage(2, 1, "LA", [1, 5, 3, 6])]
        w = [picturemark(fmt, 2, 1, "LA", [1, 2, 3, 4], (10, 0, 0, 10, 0, 0)), picturemark(fmt, 2, 1, "LA", [1, 5, 3, 6], (10, 0, 0, 10, 20, 0))]
    elif n == "palette data":
        l = [bitmap.image(2, 1, "P", bytes([0, 1]), palette=bitmap.palette("RGB", bytes(p))) for p in ((1, 2, 3, 4, 5, 6), (6, 5, 4, 3, 2, 1))]
        w = [picturemark(fmt, 2, 1, "P", [0, 1], (10, 0, 0, 10, 20*i, 0), pal=p) for i, p in enumerate([(1, 2, 3, 4, 5, 6), (6, 5, 4, 3, 2, 1)])]
    else:
        l, w = [], []
        for i, (pw, ph, mode, off) in enumerate(PAIRS[n]):
            d = [0, 1, 0, 1] if off is None else [1, 2, 3] if n == "alpha" and mode == "L" else [1, 9, 2, 8, 3, 7] if n == "alpha" else data(pw, ph, mode, off)
            l.append(theimage(pw, ph, mode, d))
            w.append(picturemark(fmt, pw, ph, mode, d, (10, 0, 0, 10, 20*i, 0)))
    for i, b in enumerate(l):
        c.insert(bitmap.bitmap_pt(20*i, 0, b, width_pt=10, height_pt=10, compressmode="Flate" if fmt == "SVG" else None, PSstoreimage=1))
    same(pictures(marks(fmt, c)), tuple(w) + (("page",),))
