"Examples for C26 and C23: the comment at the end of a line names the rule which has to report it."

class _style:

    providesdata = []
    needsdata = []

    def columnnames(self, privatedata, sharedata, graph, names, dataaxisnames):
        return []

    def initdrawpoints(self, privatedata, sharedata, graph):
        pass

    def drawpoint(self, privatedata, sharedata, graph, point):
        pass

    def donedrawpoints(self, privatedata, sharedata, graph):
        pass

class pos(_style):

    providesdata = ["vpos", "late"]

    def initdrawpoints(self, privatedata, sharedata, graph):
        sharedata.vpos = [None]*2

    def drawpoint(self, privatedata, sharedata, graph, point):
        sharedata.vpos[0] = point
        sharedata.late = 1

class lazy(_style): # unset

    providesdata = ["never"]

class good(_style):

    needsdata = ["vpos"]

    def __init__(self, attrs=[], more=None):
        self.attrs = attrs
        self.more = more or []

    def columnnames(self, privatedata, sharedata, graph, names, dataaxisnames):
        privatedata.names = list(self.attrs)
        privatedata.names.append(names)
        attrs = self.attrs
        attrs = attrs + [1]
        attrs.append(2)
        return attrs

    def drawpoint(self, privatedata, sharedata, graph, point):
        privatedata.last = sharedata.vpos[0]

class counting(good):

    def initdrawpoints(self, privatedata, sharedata, graph):
        self.n = 0 # modified
        privatedata.attrs = self.attrs

    def drawpoint(self, privatedata, sharedata, graph, point):
        privatedata.attrs.append(point) # modified defaultkept

class early(_style):

    needsdata = ["late"]

    def initdrawpoints(self, privatedata, sharedata, graph):
        privatedata.n = sharedata.late # unset
        privatedata.k = sharedata.vpos
        privatedata.m = sharedata.values # undeclared

class lost(_style): # provider

    needsdata = ["other"]

def setup(style):
    style.n = 1 # outside

def start():
    setup(counting())
    for s in (good(), counting(), early(), pos(), lazy()):
        s.columnnames(early(), early(), None, [], {})
        s.initdrawpoints(early(), early(), None)
        s.drawpoint(early(), early(), None, 1)

def collect(x, seen=[], other=[], fine=[]):
    seen.append(x) # defaultmodified
    l = other
    l.extend(seen) # defaultmodified
    fine = list(fine)
    fine.append(x)
    return fine

class keeping:

    def __init__(self, items=[], others=[]):
        self.items = items
        self.others = others[:]

    def add(self, x):
        self.others.append(x)
        self.items.append(x) # defaultkept
