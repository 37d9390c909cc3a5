# Laws of the TeX engines: what they send to the interpreter, how they wait for its answers, and what they leave behind (C30).
from pyx import text, config, trafo, color, unit, attr

START, PREAMBLE, TYPESET, DONE = text.STATE_START, text.STATE_PREAMBLE, text.STATE_TYPESET, text.STATE_DONE

class faketex:
    """A TeX interpreter and everything around it: process, pipes, temporary directory and exit handlers.
    It answers like TeX does, unless told otherwise, and checks the protocol while it is used."""
    def __init__(self, world):
        self.world = world
        self.pending = ""        # written, not flushed
        self.stubborn = ""       # does not react to its input any more ("stuck": neither to SIGTERM)
        self.stuck = False       # an answer did not arrive
        self.answer = ""         # answered, not read
        self.expecting = []      # announced, not received
        self.open = True         # the input can be written
        self.running = True
        self.waited = False
        self.late = False
        self.count = 0           # instructions received
        self.pages = 0
        self.sent = ""
        self.exprs = []          # instructions without what is added for the engine
    def answering(self, s):
        check(len(s) > 0)
        w = self.world
        self.sent += s
        self.count += 1
        fault = w.faults.get((len(w.tex)-1, self.count))
        if fault in ("hang", "stuck"): self.stubborn = fault; return
        if fault == "dead": self.running = False; return
        r = "*\n" if self.count > 1 else ""
        if "\\raiseerror%" in s: r += "This is e-TeX (version)\n*! Undefined control sequence.\n<*> \\raiseerror\n               %\n"
        if fault == "error": r += "! Undefined control sequence.\nl.5 \\abc\n"
        i = s.rfind("%\n\\PyXInput{")
        if i == -1:
            self.exprs.append(s)
            check("\\end" in s)
            self.running = False
            n = self.pages + (fault == "pages")
            if n and fault != "nopages": r += "Output written on texput.dvi (%d page%s, 220 bytes).\n" % (n, "" if n == 1 else "s")
            else: r += "No pages of output.\n"
            if fault != "log": r += "Transcript written on texput.log.\n"
        else:
            n = s[i+12:s.index("}", i)]
            check(s[s.index("}", i):] == "}%\n")
            check(n == str(self.count))
            if s.startswith("\\ProcessPyXBox{"):
                j = s.rfind("%\n}{")
                p = int(s[j+4:i-1])
                self.exprs.append(s[15:j])
                self.pages += 1
                check(p == self.pages)
                if fault == "bothpages": p += 1
                if fault != "box": r += "PyXBox:page=%d,lt=%d.5pt,rt=%d.0pt,ht=2.0pt,dp=.25pt:\n" % (p + (fault == "page"), p, p+10)
                if fault == "out": p += 1
                if fault != "noout": r += "[80.121.88.%d]\n" % p
            else:
                self.exprs.append(s[:i])
            r += "PyXInputMarker:executeid=%s:\n" % (n if fault != "marker" else str(self.count+1))
        self.answer += r
        if fault == "late": self.late = True; self.stubborn = "hang"; self.running = True   # answered completely, but not in time

class pipe:
    "the input of the interpreter"
    def __init__(self, t): self.t = t
    def write(self, s):
        check(self.t.open)
        if not self.t.running: raise OSError("broken pipe")
        if self.t.stubborn: return
        check(len(self.t.expecting) == 1)       # announced before it is written
        self.t.pending += s
    def flush(self):
        if not self.t.running: raise OSError("broken pipe")
        if self.t.stubborn: return
        s = self.t.pending; self.t.pending = ""
        self.t.answering(s)
    def close(self):
        self.t.open = False
        if self.t.stubborn: return
        if self.t.pending and self.t.running: self.flush()
        self.t.running = False

class monitor:
    "the output of the interpreter"
    def __init__(self, name, t):
        self.t = t
        check(isinstance(name, str))
    def expect(self, s):
        check(self.t.pending == "")
        if self.t.expecting and self.t.stuck: self.t.expecting = []
        check(self.t.expecting == [])           # the answer to the previous instruction was awaited
        self.t.expecting = [s]; self.t.stuck = False
    def wait(self):
        t = self.t
        check(t.pending == "")                  # flushed
        check(len(t.expecting) == 1 and t.expecting[0] is not None)
        for line in [] if t.late else t.answer.split("\n"):
            if t.expecting[0] in line:
                t.expecting = []
                return True
        t.stuck = True
        return False
    def done(self):
        t = self.t
        check(t.pending == "" or not t.open)
        if t.expecting != [None]: check(not t.running or t.stubborn)
        if not t.running: t.expecting = []; return True
        t.stuck = True
        return False
    def is_alive(self): return self.t.running
    def read(self):
        r = self.t.answer
        self.t.answer = ""
        return r

class fakeworld:
    def __init__(self, faults={}):
        self.faults = faults
        self.tex = []            # interpreters started
        self.cmds = []
        self.dirs = []           # temporary directories which exist
        self.made = []
        self.atexit = []
        self.moved = []
        self.read = []           # pages read from the DVI files
        self.files = []

class filewriter:
    def __init__(self): self.data = ""
    def write(self, s): self.data += s
    def flush(self): pass
    def close(self): pass

class fakedvi:
    def __init__(self, world, filename):
        self.world = world
        check(filename[-11:] == "/texput.dvi")
        check(filename[:-11] in world.dirs)     # before it is removed
        self.n = world.made.index(filename[:-11])
        self.t = world.tex[self.n]
        self.page = 0
    def readpage(self, pageid, fontmap=None, singlecharmode=False, attrs=[]):
        if pageid is None and self.page == self.t.pages: return None
        self.page += 1
        check(pageid is None or pageid == [80, 121, 88, self.page, 0, 0, 0, 0, 0, 0])
        check(self.page <= self.t.pages)
        if pageid is not None: self.world.read.append((self.n+1, self.page))
        return ("page", self.n+1, self.page, attrs)

def world(faults={}):
    w = fakeworld(faults)
    class proc:
        def __init__(self, t): self.t = t; self.stdin = pipe(t); self.stdout = t
        def wait(self):
            check(not self.t.running)
            self.t.waited = True
            return 0
        def poll(self): return None if self.t.running else 0
        def terminate(self):
            if self.t.stubborn != "stuck": self.t.running = False
        def kill(self): self.t.running = False
    def Popen(cmd, stdin=None, stdout=None, stderr=None, bufsize=-1):
        w.cmds.append(cmd)
        if w.faults.get((len(w.tex), 0)): raise OSError('not installed')
        t = faketex(w)
        w.tex.append(t)
        return proc(t)
    config.Popen = Popen
    class fakeio:
        @staticmethod
        def TextIOWrapper(f, encoding=None, errors=None):
            check(encoding == "ascii")
            return f
    text.io = fakeio
    text.MonitorOutput = monitor
    class faketempfile:
        @staticmethod
        def mkdtemp(prefix=None, dir=None, suffix=None):
            d = "/scratch/%d" % len(w.made)
            w.made.append(d); w.dirs.append(d)
            return d
    text.tempfile = faketempfile
    class fakeatexit:
        @staticmethod
        def register(f): w.atexit.append(f); return f
        @staticmethod
        def unregister(f): w.atexit = [g for g in w.atexit if g is not f and g != f]
    text.atexit = fakeatexit
    class fakeshutil:
        @staticmethod
        def rmtree(d, ignore_errors=False):
            check(d in w.dirs)
            w.dirs = [x for x in w.dirs if x != d]
        @staticmethod
        def move(a, b): w.moved.append((a, b))
    text.shutil = fakeshutil
    class fakedvifile:
        @staticmethod
        def DVIfile(filename, debug=0): return fakedvi(w, filename)
    text.dvifile = fakedvifile
    return w

def atexit(w):
    "what happens when Python ends"
    for f in w.atexit[::-1]: outcome(f)

def nothingleft(w):
    "temporary directories, handlers and processes are gone"
    check(w.dirs == [])
    for t in w.tex:
        check(not t.running); check(not t.open)

ENGINES = [(text.SingleTexEngine, {"lfs": None}), (text.SingleLatexEngine, {"pyxgraphics": False}), (text.SingleLatexEngine, {"pyxgraphics": False, "docopt": "12pt"}),
           (text.SingleTexEngine, {"lfs": None, "texipc": True}), (text.SingleLatexEngine, {"pyxgraphics": False, "texipc": True})]
OPS = ["p", "t", "x", "b", "q", "e"]        # preamble, text, text which cannot be encoded, box needed, empty preamble, empty text
HISTORIES = ["", "p", "t", "x", "pp", "pt", "px", "tp", "tt", "tb", "xt", "tx", "ptt", "ptb", "tbt", "tbp", "tbb", "ttb", "tpt", "txt", "xpt", "pxt", "ttbb", "ptpt", "pttbt", "txtb", "tttb", "q", "e", "qt", "pqpt", "teb", "ebt", "qeb", "etb"]
CASES = [(e, h) for e in ENGINES for h in HISTORIES]

def law_histories(case=CASES):
    "calls are accepted in the order preambles, texts; each is answered before the next one; boxes get their own pages; nothing is left behind"
    (cls, kwargs), history = case
    w = world()
    copy = filewriter()
    e = cls(copyinput=copy, **kwargs)
    ipc = kwargs.get("texipc", False)
    state = "start"
    boxes = []; sent = []; typeset = 0
    for op in history:
        before = [t.count for t in w.tex]
        if op == "p" or op == "q":
            expr = "\\def\\p{%d}" % len(sent) if op == "p" else ""
            r = outcome(lambda: e.preamble(expr))
            if state in ("start", "preamble"):
                check(r[0] == "ok")
                state = "preamble"
                sent.append(expr)
            else:
                check(r[0] == "raise")
                check([t.count for t in w.tex] == before)   # nothing is sent
        elif op == "x":
            r = outcome(lambda: e.text_pt(0, 0, "a\u20ac"))
            check(r[0] == "raise")
            if state == "done": check(r[1] == "TexDoneError")
            else:
                check(r[1] == "UnicodeEncodeError")
                state = "typeset"
        elif op == "t" or op == "e":
            expr = "text %d" % len(sent) if op == "t" else ""
            r = outcome(lambda: e.text_pt(3, 4, expr))
            if state == "done":
                check(r == ("raise", "TexDoneError"))
                check([t.count for t in w.tex] == before)
            else:
                check(r[0] == "ok")
                state = "typeset"
                sent.append(expr)
                boxes.append(r[1]); typeset += 1
                f = 72/72.27
                same(r[1].left, (typeset+0.5)*f*unit.x_pt)
                same(r[1].right, (typeset+10)*f*unit.x_pt)
                same(r[1].height, 2*f*unit.x_pt)
                same(r[1].depth, 0.25*f*unit.x_pt)
        elif op == "b":
            if boxes:
                r = outcome(lambda: boxes[-1].dvicanvas)
                check(r[0] == "ok")
                if not ipc: state = "done"
                same(r[1][:3], ("page", 1, len(boxes)))
        check(len(w.tex) == (state != "start"))             # started once
        if w.tex:
            t = w.tex[0]
            check(t.pages == typeset)
            check(t.expecting == []); check(t.answer == "")
            check([x for x in t.exprs if x.startswith("text ") or x.startswith("\\def\\p{")] == [x for x in sent if x])
            check(copy.data == t.sent)
            check(t.running == (state != "done"))
    atexit(w)
    nothingleft(w)
    for t in w.tex: check(t.waited)
    if state == "done": check(w.atexit == [])
    if typeset: check(w.read == [(1, i+1) for i in range(typeset)])

FAULTS = ["hang", "stuck", "dead", "error", "page", "bothpages", "late", "box", "out", "noout", "marker", "pages", "nopages", "log"]
FCASES = [(e, f, k) for e in ENGINES for f in FAULTS for k in range(1, 9)]
def law_faults(case=FCASES):
    "an answer which is not the expected one is reported for the instruction it belongs to; the temporary directory is removed in any case"
    (cls, kwargs), fault, k = case
    w = world({(0, k): fault})
    e = cls(**kwargs)
    boxes = []
    failed = None
    for step in ["p", "p", "t", "t", "f"]:
        before = w.tex[0].count if w.tex else 0
        n = len(w.tex[0].exprs) if w.tex else 0
        if step == "p": r = outcome(lambda: e.preamble("\\def\\p"))
        elif step == "t": r = outcome(lambda: e.text_pt(0, 0, "text"))
        else: r = outcome(lambda: e.do_finish())
        t = w.tex[0]
        hit = before < k <= t.count
        relevant = fault in ("hang", "stuck", "dead", "error", "marker") if step == "p" else True
        if hit:
            isend = step == "f" and k == t.count
            isbox = step == "t" and k == t.count
            if fault in ("page", "bothpages", "box", "out", "noout"): bad = isbox
            elif fault in ("pages", "nopages", "log"): bad = isend
            elif fault == "marker": bad = not isend
            elif fault == "dead": bad = True
            else: bad = True
            if bad:
                check(r == ("raise", "TexResultError"))
                failed = step
                break
            check(r[0] == "ok")
        else: check(r[0] == "ok")
    atexit(w)
    check(w.dirs == [])
    for t in w.tex:
        check(not t.running); check(t.waited)

def law_notinstalled(e=ENGINES):
    "an interpreter which cannot be started leaves nothing behind"
    cls, kwargs = e
    w = world({(0, 0): True})
    e = cls(**kwargs)
    check(outcome(lambda: e.text_pt(0, 0, "abc")) == ("raise", "OSError"))
    atexit(w)
    check(len(w.made) == 1); check(w.dirs == [])

def law_failedtext(e=ENGINES):
    "a text which fails does not disturb the ones before and after it"
    cls, kwargs = e
    for k in range(3, 7):
        w = world({(0, k): "error"})
        e = cls(**kwargs)
        boxes = []; page = 0
        for i in range(4):
            r = outcome(lambda: e.text_pt(0, 0, "text %d" % i))
            if w.tex[0].pages > page: page = w.tex[0].pages
            if r[0] == "ok": boxes.append((page, r[1]))
            else: check(r == ("raise", "TexResultError"))
        check(len(boxes) >= 3)
        for page, b in boxes: same(b.dvicanvas[:3], ("page", 1, page))
        atexit(w)
        nothingleft(w)

def law_errordetail(level=[text.errordetail.none, text.errordetail.default, text.errordetail.full]):
    "errors are reported at every verbosity"
    w = world({(0, 3): "error"})
    e = text.SingleTexEngine(lfs=None, errordetail=level)
    r = outcome(lambda: e.preamble("\\abc"))
    check(r == ("raise", "TexResultError"))
    r = outcome(lambda: e.text_pt(0, 0, "abc"))
    check(r[0] == "ok")                      # an error does not stop the interpreter
    atexit(w)
    nothingleft(w)

def law_files():
    "supplementary files are moved to the interpreter and back"
    w = world()
    ren = []
    class fakeos:
        sep = "/"
        path = text.os.path
        @staticmethod
        def rename(a, b): ren.append((a, b))
    text.os = fakeos
    e = text.SingleTexEngine(lfs=None, usefiles=["a.toc", "dir/b.x.aux"])
    b = e.text_pt(0, 0, "abc")
    d = w.made[0]
    check(ren == [("a.toc", d + "/texput.toc"), ("dir/b.x.aux", d + "/texput.aux")])
    check(w.moved == [])
    e.do_finish()
    check(w.moved == [(d + "/texput.toc", "a.toc"), (d + "/texput.aux", "dir/b.x.aux")])
    nothingleft(w)
    e.do_finish()                               # does nothing
    check(w.atexit == [])

def law_interrupted():
    "Python ends within a text: the interpreter is asked to finish"
    w = world()
    e = text.SingleLatexEngine(pyxgraphics=False)
    e.preamble("\\def\\a")
    e.text_pt(0, 0, "abc")
    atexit(w)
    nothingleft(w)
    check(w.tex[0].exprs[-1] == "\\end{document}%\n")
    check(w.read == [(1, 1)])

def law_messages():
    "message parsers are applied in order, to the answer of their instruction"
    w = world({(0, 3): "error"})
    seen = []
    def first(msg): seen.append(("first", msg)); return msg.replace("! Undefined control sequence.", "XYZ")
    def second(msg): seen.append(("second", msg)); return msg.replace("XYZ\nl.5 \\abc\n", "")
    e = text.SingleTexEngine(lfs=None, texmessages_preamble=[first])
    e.preamble("\\abc", texmessages=[second])
    check([s[0] for s in seen] == ["first", "second"])
    check("XYZ" in seen[1][1])
    check("PyXInputMarker" not in seen[0][1])
    atexit(w)

MENGINES = [(text.TexEngine, {"lfs": None}), (text.LatexEngine, {"pyxgraphics": False})]
MCASES = [(e, h) for e in MENGINES for h in ["t", "ptbt", "pptbtbt", "tbt", "ptbtp", "ptrpt", "ptbrt", "tbtbt", "prt"]]
def law_restarted(case=MCASES):
    "engines start a new interpreter with the same preambles when text is wanted after the end of the previous one"
    (cls, kwargs), history = case
    w = world()
    e = cls(**kwargs)
    pre = []; texts = []; boxes = []; started = 0; state = "start"
    for i, op in enumerate(history):
        if op == "p":
            r = outcome(lambda: e.preamble("\\def\\p{%d}" % i))
            if state in ("start", "preamble"):
                check(r[0] == "ok"); pre.append("\\def\\p{%d}" % i)
                if state == "start": started += 1
                state = "preamble"
            else: check(r[0] == "raise")
        elif op == "r":
            e.reset(); pre = []; texts = []; state = "start"
        elif op == "t":
            if state in ("start", "done"): started += 1; texts = []
            boxes.append(e.text_pt(0, 0, "text %d" % i)); texts.append("text %d" % i)
            state = "typeset"
        elif op == "b":
            r = boxes[-1].dvicanvas
            same(r[:3], ("page", started, len(texts)))
            state = "done"
        check(len(w.tex) == started)
        if state != "start":
            check([x for x in w.tex[-1].exprs if x.startswith("text ") or x.startswith("\\def\\p{")] == pre + texts)
    atexit(w)
    nothingleft(w)

def law_attributes():
    "text attributes are applied to the expression in order, transformations and fill styles to the box"
    w = world()
    e = text.SingleTexEngine(lfs=None)
    b = e.text_pt(1, 2, "abc", [text.size.large, text.mathmode, color.rgb.red, trafo.translate_pt(5, 6)])
    check(w.tex[0].exprs[-1].find("abc") > 0)
    s = w.tex[0].exprs[-1]
    check(0 <= s.find("\\large") < s.find("abc"))
    e.do_finish()
    check(b.dvicanvas[3][1:] == [color.rgb.red])
    same(b.dvicanvas[3][0].apply_pt(0, 0), (6, 8))
    b2 = text.SingleTexEngine(lfs=None).text_pt(1, 2, text.MultiEngineText("tex variant", "unicode variant"))
    check(w.tex[-1].exprs[-1] == "tex variant")
    atexit(w)
    nothingleft(w)

# --- the monitor of the output itself: reading is independent of when the expectation arrives ---

class fakequeue:
    class Empty(Exception): pass
    class Full(Exception): pass

class reader:
    "what a MonitorOutput consists of, lines being read while an expectation arrives just before line k"
    def __init__(self, lines, s, k):
        self.lines = lines; self.pos = 0
        self.name = "TeX"
        self.got = []
        self.events = []
        outer = self
        class expect:
            def __init__(self): self.item = [(s, k)] if s is not None or k is not None else []
            def get_nowait(self):
                if self.item and outer.pos >= self.item[0][1] + 1: return self.item.pop()[0]
                raise fakequeue.Empty()
            def put_nowait(self, s):
                check(not self.item)
                self.item = [(s, 0)]
        class collected:
            def put(self, line): outer.got.append(line)
            def get_nowait(self):
                if not outer.got: raise fakequeue.Empty()
                return outer.got.pop(0)
        class event:
            def __init__(self): self.flag = False
            def set(self):
                check(outer.got[-1] == outer.lines[outer.pos-1])    # the line can be read already
                self.flag = True; outer.events.append(outer.pos)
            def clear(self): self.flag = False
            def is_set(self): return self.flag
        class output:
            def __init__(self): self.closed = False
            def readline(self):
                outer.pos += 1
                return outer.lines[outer.pos-1] if outer.pos <= len(outer.lines) else ""
            def close(self): self.closed = True
        self._expect = expect(); self._output = collected(); self._received = event(); self.output = output()
    def _readline(self): return text.MonitorOutput._readline(self)

LINES = ["This is TeX\n", "a\r\n", "\n", "PyXInputMarker:executeid=1:\n", "*\n", "PyXInputMarker:executeid=12:\n"]
def law_monitor(k=[0, 1, 2, 3]):
    "the expected line is recognised whenever it is announced before it is read; all lines can be read"
    text.queue = fakequeue
    m = reader(LINES, "PyXInputMarker:executeid=1:", k)
    text.MonitorOutput.run(m)
    check(m.events == [4])
    check(m.got == LINES)
    check(m.output.closed)
    check(text.MonitorOutput.read(m) == "This is TeX\na\n\nPyXInputMarker:executeid=1:\n*\nPyXInputMarker:executeid=12:\n")
    check(text.MonitorOutput.read(m) == "")

def law_monitorend():
    "the end of the output is an error while a line is expected only"
    text.queue = fakequeue
    m = reader(LINES, "PyXInputMarker:executeid=2:", 0)
    check(outcome(lambda: text.MonitorOutput.run(m)) == ("raise", "ValueError"))
    check(m.got == LINES); check(m.events == []); check(m.output.closed)
    m = reader(LINES, "PyXInputMarker:executeid=1:", 4)
    check(outcome(lambda: text.MonitorOutput.run(m)) == ("raise", "ValueError"))
    m = reader(LINES, None, 3)
    check(outcome(lambda: text.MonitorOutput.run(m))[0] == "ok")
    check(m.got == LINES); check(m.events == [])
    m = reader([], None, None)
    check(outcome(lambda: text.MonitorOutput.run(m))[0] == "ok")
    m = reader([], None, None)
    text.MonitorOutput.expect(m, "abc")
    check(m._expect.item == [("abc", 0)])

def law_waiting(case=[(w, s, n) for w in [0, 1, 5, 60] for s in [0, 1, 5, 7, 100] for n in [0, 1, 2, 8, 1000]]):
    "waiting ends when the answer arrives and not before, but at the timeout at the latest"
    wait, show, n = case
    calls = []
    class conf:
        @staticmethod
        def getint(section, option, default):
            check(section == "text")
            return wait if option == "wait" else show
    text.config = conf
    class m: name = "TeX"
    r = text.MonitorOutput._wait(m, lambda t: calls.append(t), lambda: len(calls) > n)
    if show: check(sum(calls) <= wait)
    else: check(calls == [wait])
    for t in calls: check(t > 0 or wait == 0)
    if r: check(len(calls) == n+1)
    else: check(sum(calls) == wait); check(len(calls) <= n)

# --- message parsers: what is documented to be known is removed, everything else is kept ---

M = text.texmessage
FILES = ["/usr/share/a.tex", "b.cfg", "my file.sty", "c.fd", "d e.def", "f.def", "g.eps", "h i.eps", "j.eps"]
def files():
    class fakepath:
        sep = "/"
        @staticmethod
        def isfile(f): return f in FILES
    class fakeos:
        path = fakepath; curdir = "."; sep = "/"
    text.os = fakeos
LOADED = ["(/usr/share/a.tex)", "(/usr/share/a.tex (b.cfg) [1])", "(/usr/share/a.tex\n(b.cfg (b.cfg) Package)\nfurther)", "(\"my file.sty\")", "(\"my file.sty\" (b.cfg) further)", "(/usr/sh\nare/a.tex)"]
DEFS = ["(c.fd)", "(\"d e.def\")", "(f.def)"]
GRAPHICS = ["<g.eps>", "<\"h i.eps\">", "<j.eps>"]
BOX = "Overfull \\hbox (4.0pt too wide) in paragraph at lines 3--4\n[]\\OT1/cmr/m/n/10 abc\n\n"
FONT = "LaTeX Font Warning: Font shape `OT1/x' undefined\n(Font)              using `OT1/y' instead on input line 5."
PACKAGE = "Package hyperref Warning: Option already consumed\n(hyperref)  on input line 3."
RERUN = "LaTeX Warning: Label(s) may have changed. Rerun to get cross-references right."
KINDS = [("load", LOADED), ("load_def", DEFS), ("load_graphics", GRAPHICS), ("box_warning", [BOX]), ("font_warning", [FONT]), ("package_warning", [PACKAGE]), ("rerun_warning", [RERUN]),
         ("no_aux", ["No file texput.aux.", "No file ./texput.aux."]), ("no_nav", ["No file texput.nav."])]
TCASES = [(k, a) for k, ms in KINDS for a in [()] + [(m,) for m in ms] + [(m, n) for m in ms for n in ms] + [(ms[0], ms[-1], ms[0], ms[0])]]
def law_messageparsers(case=TCASES):
    "all messages of the kind of a parser are removed, however many, the rest is kept"
    kind, messages = case
    files()
    pre, sep, post = ("before\n", "\n", "\nafter\n")
    if kind == "box_warning": sep = post = ""
    t = pre + sep.join(messages) + post
    r = getattr(M, kind)(t)
    check(r.replace("\n", "") == "before" + ("after" if post else ""))
    check(getattr(M, kind)("! Undefined control sequence.\nl.5 \\abc\n") == "! Undefined control sequence.\nl.5 \\abc\n")

def law_unknownfiles(case=[("load", "(unknown.tex)"), ("load", "(/usr/share/a.tex (b.cfg)) (unknown.tex)"), ("load", "(/usr/share/a.tex"), ("load_def", "(unknown.fd)"), ("load_def", "(\"unknown.def\")"),
                           ("load_graphics", "<unknown.eps>"), ("load_graphics", "<\"un known.eps\">"), ("load_graphics", "<g.eps> <unknown.eps>"), ("load_def", "(c.fd) (unknown.fd)")]):
    "messages about files which do not exist are not accepted as such"
    kind, t = case
    files()
    check(getattr(M, kind)(t).find("unknown" if "unknown" in t else "a.tex") != -1 or "un known" in t and getattr(M, kind)(t).find("un known") != -1)

def law_ignoring():
    check(M.ignore("abc\ndef") == "")
    check(M.warn("abc\ndef") == "")
    check(M.warn("") == "")

RTEXTS = ["", "abc", "ab\ncd", "XYZ", "XY\nZ", "a\nX\nY\nZ\n\nb", "aXYZbXYZ", "\n\nXYZ\n\n", "X\n\nYZXYZ"]
def law_removepattern(s=RTEXTS):
    "a pattern is found across line breaks, exactly its text is removed"
    import re
    p = re.compile("XYZ")
    r, m = text.remove_pattern(p, s)
    flat = s.replace("\n", "")
    if "XYZ" not in flat: check(m is None); check(r == s)
    else:
        check(m is not None)
        check(r.replace("\n", "") == flat.replace("XYZ", "", 1))
        i = flat.find("XYZ")
        for a in range(len(s)+1):
            if s[:a].replace("\n", "") == flat[:i] and a < len(s) and s[a] == "X": break
        check(r[:a] == s[:a])                   # up to the text nothing changes, afterwards neither
        b = a
        while s[a:b].replace("\n", "") != "XYZ": b += 1
        check(r[a:] == s[b:])
    r, m = text.remove_pattern(p, s, ignore_nl=False)
    if "XYZ" in s: check(m is not None); check(r == s.replace("XYZ", "", 1))
    else: check(m is None); check(r == s)
    check(text.remove_string("XYZ", s) == (s.replace("XYZ", "", 1), "XYZ" in s))
