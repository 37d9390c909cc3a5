# Laws of the encryption of Type 1 fonts, its C implementation, and of the parts of a font file (C15).
from pyx import trafo, reader
from pyx.font import t1code, t1file

C = cmodule("pyx/font/_t1code.c")
PYTHON, CSOURCE = "python", "C"
BOTH = [PYTHON, CSOURCE]
def implementation(k): return t1code if k == "python" else C
B = [byte("b%d" % i) for i in range(6)]
P = [byte("p%d" % i) for i in range(4)]
R = integer("r")
def key():
    assume(R >= 0); assume(R <= 65535)
    return R
def bs(l): return bytesof(*l) if len(l) else b""

def specdecode(code, r):
    """Adobe Type 1 font format, section 7.1"""
    plain = []
    for c in code:
        plain.append(c ^ (r >> 8))
        r = ((c + r)*52845 + 22719) % 65536
    return plain
def specencode(plain, r):
    code = []
    for p in plain:
        code.append(p ^ (r >> 8))
        r = ((code[len(code)-1] + r)*52845 + 22719) % 65536
    return code

LENGTHS = [0, 1, 2, 4, 6]
CASES = [(k, n) for k in BOTH for n in LENGTHS]
def law_decoder(c=CASES):
    """the specified plain text without its first bytes"""
    k, n = c
    d = implementation(k).decoder(bs(B[:n]), key(), 0)
    same(len(d), n)
    same(list(d), specdecode(B[:n], R))
def law_encoder(c=CASES):
    k, n = c
    d = implementation(k).encoder(bs(B[:n]), key(), b"")
    same(list(d), specencode(B[:n], R))
SKIPS = [(k, n) for k in BOTH for n in range(8)]
def law_decoder_skip(c=SKIPS):
    """the given number of bytes is removed; nothing remains of shorter data"""
    k, n = c
    d = implementation(k).decoder(bs(B), key(), n)
    same(list(d), specdecode(B, R)[n:])
def law_encoder_prefix(c=SKIPS):
    """the prefix is encoded in front of the data"""
    k, n = c
    n = min(n, 4)
    d = implementation(k).encoder(bs(B[:3]), key(), bs(P[:n]))
    same(list(d), specencode(P[:n] + B[:3], R))
PAIRS = [(k, n) for k in ["python/python", "python/C", "C/python", "C/C"] for n in [0, 1, 4]]
def law_inverse(c=PAIRS):
    """what was encoded is decoded to the original data"""
    k, n = c
    e, d = k.split("/")
    code = implementation(e).encoder(bs(B), key(), bs(P[:n]))
    same(list(implementation(d).decoder(code, R, n)), B)
def law_inverse_decoded(k=BOTH):
    """encoding what was decoded is the original code"""
    d = implementation(k).decoder(bs(B), key(), 0)
    same(list(implementation(k).encoder(d, R, b"")), B)
def law_c_memory(n=SKIPS):
    """no overflow of signed numbers, all memory freed"""
    k, n = n
    C.decoder(bs(B), key(), n); C.encoder(bs(B), R, bs(P[:min(n, 4)]))
    for v, bits in C.overflows: check(-C.MOD[bits] <= 2*v < C.MOD[bits])
    for b in C.blocks: check(b.freed)
def law_c_names():
    """the C module has the names the Python one provides to the font"""
    for n in ["decoder", "encoder"]: check(hasattr(C, n)); check(hasattr(t1code, n))

# --- use in fonts
def font():
    trust("pyx.font.t1file.T1File.__init__", lambda self: None)
    f = t1file.T1File()
    f._data2 = f._data2eexec = f.encoding = None
    return f
LENIV = [0, 1, 2, 3, 4, 5, 8]
def law_eexec():
    f = font()
    same(list(f._eexecdecode(bs(B))), specdecode(B, 55665)[4:])
    e = f._eexecencode(bs(B))
    same(list(f._eexecdecode(e)), B)
    same(len(e), 10)
def law_eexec_start():
    """the first byte is no white space, and the first four ones are not all hexadecimal digits (so it is not taken to be hexadecimal)"""
    e = list(font()._eexecencode(b""))
    same(len(e), 4)
    check(chr(e[0]) not in " \t\r\n")
    check(not all([chr(x) in "0123456789abcdefABCDEF" for x in e]))
def law_charstring(n=LENIV):
    f = font()
    f.lenIV = n
    same(list(f._charstringdecode(bs(B))), specdecode(B, 4330)[n:])
    e = f._charstringencode(bs(B))
    same(len(e), 6 + n)
    same(list(f._charstringdecode(e)), B)

# --- the parts of a font
DATA1 = b"%!PS-AdobeFont-1.0: Test 1.0\n/FontName /Test def\n/FontMatrix [0.001 0 0.0002 0.003 5 -6] readonly def\n/Encoding StandardEncoding def\ncurrentfile eexec\n"
DATA3 = b"0"*64 + b"\n" + b"0"*64 + b"\ncleartomark\n"
HIGH = b"% \xe9\xff\n"     # comments may contain any character
def le(n): return bytes([n % 256, n // 256 % 256, n // 65536 % 256, n // 16777216 % 256])
def pfb(parts1, code, data3=DATA3):
    r = b"\x80\x01" + le(len(parts1)) + parts1
    for c in code: r = r + b"\x80\x02" + le(len(c)) + c
    return r + b"\x80\x01" + le(len(data3)) + data3 + b"\x80\x03"
def parts(f): return (f.data1.encode("ascii", errors="surrogateescape"), f.getdata2eexec(), f.data3.encode("ascii", errors="surrogateescape"))
CODE = bytes([(7*i*i + 13*i + 129) % 256 for i in range(300)])
PFBS = [[CODE], [CODE[:100], CODE[100:]], [CODE[:1], CODE[1:256], CODE[256:]]]
def law_pfb(c=PFBS):
    """the three parts, binary sections joined"""
    for head in [DATA1, HIGH + DATA1]:
        same(parts(t1file.T1File.from_PFB_bytes(pfb(head, c))), (head, CODE, DATA3))
        same(parts(t1file.T1File.from_PF_bytes(pfb(head, c))), (head, CODE, DATA3))
def law_pfb_length():
    """all four bytes of a length count"""
    head = DATA1 + b"% \n"*30000
    same(parts(t1file.T1File.from_PFB_bytes(pfb(head, [CODE*250]))), (head, CODE*250, DATA3))
BAD = ["start", "binary", "end", "more"]
def law_pfb_invalid(k=BAD):
    ok = pfb(DATA1, [CODE])
    n = len(DATA1) + 6
    bad = {"start": b"\x80\x02" + ok[2:], "binary": ok[:n] + b"\x80\x03" + ok[n+2:], "end": ok[:len(ok)-1] + b"\x01", "more": ok + b"x"}[k]
    same(outcome(lambda: t1file.T1File.from_PFB_bytes(bad)), ("raise", "FontFormatError"))
def hexa(code, n=64, end=b"\n"):
    h = b"".join([b"%02x" % c for c in code])
    return b"".join([h[i:i+n] + end for i in range(0, len(h), n)])
PFAS = [b"\n", b"\r\n", b"\r", b" \n"]
def law_pfa(end=PFAS):
    """hexadecimal data with any line ends"""
    for head in [DATA1, HIGH + DATA1]:
        d = head + hexa(CODE, 64, end) + DATA3
        same(parts(t1file.T1File.from_PFA_bytes(d)), (head, CODE, DATA3))
        same(parts(t1file.T1File.from_PF_bytes(d)), (head, CODE, DATA3))
def law_pfa_invalid(d=[b"", b"abc", DATA1 + b"00", b"0"*600]):
    same(outcome(lambda: t1file.T1File.from_PFA_bytes(d)), ("raise", "FontFormatError"))
def law_header(m=[("0.001 0 0 0.001 0 0", (0.001, 0, 0, 0.001, 0, 0)), (" -1 2.5 .25  -4 5 -6.125 ", (-1, 2.5, 0.25, -4, 5, -6.125))]):
    """name and matrix"""
    t, v = m
    f = t1file.T1File("%!PS\n/FontName /A-Name def\n/FontMatrix [" + t + "]readonly def\n", b"", "")
    same(f.name, "A-Name")
    x, y = num("x"), num("y")
    same(seqv(f.fontmatrix.apply_pt(x, y)), (v[0]*x + v[1]*y + v[4], v[2]*x + v[3]*y + v[5]))

class sink:
    """a file taking text and bytes"""
    def __init__(self): self.data = b""
    def write(self, s): self.data = self.data + s.encode("ascii", errors="surrogateescape")
    def write_bytes(self, s):
        if isinstance(s, str): raise TypeError("bytes expected")
        self.data = self.data + s
SIZES = [1, 31, 32, 33, 64, 65, 300]
def law_output_pfa(n=SIZES):
    """what is written as PFA has the same parts"""
    f = t1file.T1File((HIGH + DATA1).decode("ascii", errors="surrogateescape"), CODE[:n], DATA3.decode("ascii"))
    s = sink(); f.outputPFA(s)
    check(s.data.startswith(HIGH + DATA1)); check(s.data.endswith(DATA3))
    same(s.data, HIGH + DATA1 + hexa(CODE[:n]) + DATA3)
    same(parts(t1file.T1File.from_PFA_bytes(s.data)), (HIGH + DATA1, CODE[:n], DATA3))
def law_output_pfb(n=SIZES):
    """what is written as PFB has the same parts"""
    f = t1file.T1File((HIGH + DATA1).decode("ascii", errors="surrogateescape"), CODE[:n], DATA3.decode("ascii"))
    s = sink(); f.outputPFB(s)
    same(s.data, pfb(HIGH + DATA1, [CODE[:n]]))
def law_output_pfb_length():
    f = t1file.T1File(DATA1.decode("ascii"), CODE*250, DATA3.decode("ascii"))
    s = sink(); f.outputPFB(s)
    same(s.data, pfb(DATA1, [CODE*250]))

# --- private part
def enc(b, n=4): return bytes(specencode([80, 121, 88, 33, 1, 2, 3, 4][:n] + list(b), 4330))
def private(leniv, rd, np, nd, subrs, glyphs, comment=b""):
    r = b"dup /Private 8 dict dup begin\n"
    if leniv != 4: r = r + b"/lenIV %d def\n" % leniv
    r = r + b"/Subrs %d array\n" % len(subrs)
    for i in range(len(subrs)): r = r + b"dup %d %d " % (i, len(subrs[i]) + leniv) + rd + b" " + enc(subrs[i], leniv) + b" " + np + b"\n"
    r = r + comment + b"ND\n2 index /CharStrings %d dict dup begin\n" % len(glyphs)
    for k, v in glyphs: r = r + b"/" + k + b" %d " % (len(v) + leniv) + rd + b" " + enc(v, leniv) + b" " + nd + b"\n"
    return r + b"end\nend\nreadonly put\n"
FLEX = [bytes([142, 139, 12, 16, 12, 17, 12, 17, 12, 33, 11]), bytes([139, 140, 12, 16, 11]), bytes([139, 141, 12, 16, 11]), bytes([11])]
SUBRS = FLEX + [bytes([140, 141, 5, 11])]
GLYPHS = [(b".notdef", bytes([139, 140, 13, 14])), (b"A", bytes([139, 239, 13, 140, 141, 5, 14])), (b"b", bytes([139, 239, 13, 32, 37, 10, 47, 14]))]
PRIVATES = [(4, b"RD", b"NP", b"ND"), (0, b"-|", b"|", b"|-"), (1, b"RD", b"noaccess put", b"ND"), (4, b"-|", b"noaccess put", b"|-")]
def law_private(k=PRIVATES):
    """subroutines and characters of the private part, decoded"""
    n, rd, np, nd = k
    f = t1file.T1File(DATA1.decode("ascii"), bytes(specencode(list(b"PyX!" + private(n, rd, np, nd, SUBRS, GLYPHS)), 55665)), DATA3.decode("ascii"))
    same(f.getdata2(), private(n, rd, np, nd, SUBRS, GLYPHS))
    same(f.lenIV, n)
    same([f._code(f.getsubrcmds(i)) for i in range(5)], [enc(s, n) for s in SUBRS])
    same([f._code(f.getglyphcmds(g.decode("ascii"))) for g, d in GLYPHS], [enc(d, n) for g, d in GLYPHS])
    same(f.glyphlist, [".notdef", "A", "b"])
    check(f.hasflexhintsubrs)
    same(f._charstringdecode(f.emptysubr), bytes([11]))
def law_private_noflex(k=[SUBRS[:3], [FLEX[0], FLEX[1], FLEX[1], FLEX[3]], [b"\x0b"]*5]):
    """subroutines are the standard ones only if all four are there"""
    f = t1file.T1File(DATA1.decode("ascii"), bytes(specencode(list(b"PyX!" + private(4, b"RD", b"NP", b"ND", k, GLYPHS)), 55665)), DATA3.decode("ascii"))
    f.getdata2()
    check(not f.hasflexhintsubrs)
SUBSETS = [(None, None), ([4], [".notdef", "b"]), ([], [".notdef"]), ([0], [".notdef", "A", "b"])]
def law_private_written(k=SUBSETS):
    """what is written for a subset reads back as the subset; the whole font reads back unchanged"""
    subrs, glyphs = k
    n, rd, np, nd = PRIVATES[0]
    f = t1file.T1File(DATA1.decode("ascii"), bytes(specencode(list(b"PyX!" + private(n, rd, np, nd, SUBRS, GLYPHS)), 55665)), DATA3.decode("ascii"))
    d = f.getdata2(None if subrs is None else set(subrs), None if glyphs is None else set(glyphs))
    g = t1file.T1File(DATA1.decode("ascii"), f._eexecencode(d), DATA3.decode("ascii"))
    g.getdata2()
    names = [x.decode("ascii") for x, y in GLYPHS]
    kept = names if glyphs is None else [x for x in names if x in glyphs]
    same(g.glyphlist, kept)
    same([g._code(g.getglyphcmds(x)) for x in kept], [f._code(f.getglyphcmds(x)) for x in kept])
    used = list(range(5)) if subrs is None else list(range(4)) if 0 in subrs else subrs
    same(len(g.subrs), max(used) + 1 if len(used) else 0)
    for i in range(len(g.subrs)):
        if i in used: same(g._code(g.getsubrcmds(i)), f._code(f.getsubrcmds(i)))
        else: same(g._code(g.getsubrcmds(i)), enc(bytes([11])))
ENCODINGS = [("/Encoding StandardEncoding def\n", None), ("/Encoding 256 array\n0 1 255 {1 index exch /.notdef put} for\ndup 0 /zero put\ndup 65 /A put\ndup 255 /last put\nreadonly def\n", {0: "zero", 65: "A", 255: "last"}),
             ("/Encoding 256 array\n0 1 255 {1 index exch /.notdef put} for\ndup 7 /seven put\ndef\n", {7: "seven"})]
def law_encoding(k=ENCODINGS):
    t, d = k
    f = t1file.T1File("/FontName /Test def\n/FontMatrix [1 0 0 1 0 0] def\n" + t + "currentdict end\n", b"", "")
    f._encoding()
    if d is None: same([f.encoding[65], f.encoding[174], f.encoding[0]], ["A", "fi", None])
    else:
        same(len(f.encoding), 256)
        same([f.encoding[i] for i in range(256)], [d.get(i) for i in range(256)])
        a, b = f.encodingstart, f.encodingend
        same(f.data1[a:b].strip().startswith("dup %d /" % min(d.keys())), True)
        check(f.data1[a:b].strip().endswith("put"))
# --- tokens
TEXTS = [("x start a bc\n12  /d/e[f]{g} %comment with words\nh (i j)k ", "start", ["a", "bc", "12", "/d", "/e", "[f", "]", "{g", "}", "h", "(i", "j", ")k"])]
TOKENS = [(k, t) for k in ["text", "bytes"] for t in TEXTS]
def law_tokens(c=TOKENS):
    """tokens are separated by white space and started by delimiters; comments are skipped"""
    kind, (t, start, expected) = c
    if kind == "text": z = reader.PStokenizer(t, start)
    else: z = reader.PSbytes_tokenizer(t.encode("ascii"), start.encode("ascii"))
    r = []
    for e in expected: r.append(z.gettoken())
    same(r, expected if kind == "text" else [e.encode("ascii") for e in expected])
def law_token_binary():
    """the separator after a token is consumed, binary data follows"""
    z = reader.PSbytes_tokenizer(b"/Subrs 12 RD \x20\x0a%\xff NP ", b"/Subrs")
    same(z.getint(), 12); same(z.gettoken(), b"RD")
    same(z.getbytes(4), b"\x20\x0a%\xff")
    same(z.gettoken(), b"NP")
    same(outcome(lambda: reader.PSbytes_tokenizer(b"ab cd", b"a")), ("raise", "ValueError"))
    same(outcome(lambda: reader.PSbytes_tokenizer(b"ab cd", b"x")), ("raise", "ValueError"))
def law_token_start():
    z = reader.PStokenizer("12 3/x 4 ", eattokensep=0)
    same((z.getint(), z.gettoken(), z.gettoken(), z.getint()), (12, "3", "/x", 4))
