import atexit, math, os, shutil, subprocess, tempfile

class ShapeError(Exception): pass

class shape:

    def __init__(self, size, name=None):
        self.size = size
        self.name = name

    def area(self):
        raise NotImplementedError

    def describe(self, prefix=""):
        return "%s%s of size %g" % (prefix, self.name, self.size)

class square(shape):

    def area(self):
        return self.size*self.size

    def diagonal(self):
        return math.sqrt(2)*self.size

def read(filename):
    with open(filename, "rb") as f:
        return f.read()

class keeper:

    def __init__(self, filename):
        self.file = open(filename, "rb")

    def close(self):
        self.file.close()

class workdir:

    def __init__(self):
        self.dir = tempfile.mkdtemp()

    def work(self, n):
        try:
            read(self.dir)
        finally:
            shutil.rmtree(self.dir)

class leakydir:

    def __init__(self):
        self.dir = tempfile.mkdtemp() # release

    def work(self, n):
        read(self.dir)
        shutil.rmtree(self.dir)

def handedout(filename):
    f = open(filename, "rb")
    return f

def parse(file):
    return file.read()

def parseandclose(file):
    try:
        return file.read()
    finally:
        file.close()

def released(filename, n):
    with open(filename, "rb") as f:
        f.read()
    with handedout(filename) as f:
        f.read()
    parseandclose(open(filename, "rb"))
    f = None
    try:
        f = open(filename, "rb")
        if n:
            return f.read(n)
    except ValueError:
        pass
    finally:
        if f is not None:
            f.close()
    p = subprocess.Popen(["ls"])
    p.wait()
    with subprocess.Popen(["ls"], stdout=subprocess.PIPE) as p:
        p.stdout.read()
    return n

def leaks(filename, n):
    parse(open(filename, "rb")) # release
    open(filename, "rb").read() # release
    f = open(filename, "rb") # release
    read(filename)
    f.close()
    g = handedout(filename) # release
    try:
        if n:
            return n
    except ValueError:
        g.close()
    k = keeper(filename) # release
    for line in open(filename): # release
        pass
    p = subprocess.Popen(["ls"]) # release
    read(filename)
    p.wait()
    with tempfile.NamedTemporaryFile("wb", delete=False) as t: # release
        name = t.name
    read(name)
    os.unlink(name)

class lazydir:

    def start(self):
        self.dir = tempfile.mkdtemp()
        n = 1
        atexit.register(self.stop)
        read(self.dir)

    def stop(self):
        try:
            read(self.dir)
        finally:
            shutil.rmtree(self.dir)

class forgetfuldir:

    def start(self):
        self.dir = tempfile.mkdtemp() # release
        read(self.dir)
        atexit.register(self.stop)

    def stop(self):
        shutil.rmtree(self.dir)
