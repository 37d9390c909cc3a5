"one mistake of each sort: the line comments tell which rule has to report"
import math, os
from . import shape
from .shape import circle # imports

def names():
    return undefinedname # names

def unset(x):
    if x:
        value = 1
    else:
        print(value2) # names
        value2 = 3
    return x

def attrs():
    s = shape.square(3)
    s.area()
    return s.circumference() # attributes

def moduleattrs():
    return shape.triangle(3) # attributes

def extattrs():
    return math.squareroot(3) # attributes

def calls():
    shape.square() # calls
    shape.square(1, 2, 3) # calls
    shape.square(1, title="a") # calls
    shape.square(1).describe("a", "b") # calls
    return shape.square(1, name="a").describe(prefix="b")

def formats(a, b):
    "%s and %s" % (a,) # formats
    "%s" % (a, b) # formats
    "{} {}".format(a) # formats
    "%s is used".format(a) # formats
    return "%(a)s %(b)s" % {"a": a, "b": b}

def raises(a):
    if a < 0:
        ValueError("negative") # raises
    if a > 3:
        raise shape.square(2) # raises
    if a == 2:
        raise shape.ShapeError("two")
    try:
        return math.sqrt(a)
    except ValueError or TypeError: # raises
        pass

def unpack():
    a, b = 1, 2, 3 # unpack
    return a

def iterate():
    for i in 5: # iterate
        pass

def subscripts():
    return shape.square(3)[0] # subscript

def operators():
    return "a" + 1 # operators

def kinds(filename):
    data = shape.read(filename)
    if data.startswith("%!"): # kinds
        other = data + "newline" # kinds
    if data == "abc": # kinds
        return data.find("x") # kinds
    with open(filename, "w") as f:
        f.write(data) # kinds
    with open(filename, "wb") as f:
        f.write("text") # kinds
    return data.decode("ascii")
