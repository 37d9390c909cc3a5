import os, json
PROPS = {}
LAWS = "abstract interpretation of the source into value graphs (global value numbering, random interpretation)"
LAWNOTE = ("Each law is an equation between values computed by the library for symbolic arguments. The functions of /repo are interpreted abstractly from "
           "their syntax trees (classes, closures and aliases included, branches joined by gamma nodes) and the two sides must get the same value number: "
           "equal normal forms over the rationals decide for all real arguments; where normal forms differ, the value graphs are compared by random interpretation. "
           "Assumes real instead of floating point arithmetic, bounded loop unrolling over the symbolic sequences given in the law; trusts the models of builtins in sa/. ")
RULES = "interprocedural syntax-tree and dataflow rules over the whole source"
def p(id, checkers, technique=LAWS, note=LAWNOTE, explain="", assumptions=("real arithmetic instead of floating point",)):
    PROPS[id] = dict(checkers=checkers, technique=technique, note=note, explain=explain or note, assumptions=list(assumptions))
def load_minimum(here):
    f = os.path.join(here, "minimum.json")
    return json.load(open(f)) if os.path.exists(f) else {}
p("C01", [("laws", "trafo")])
p("C02", [("laws", "unit")])
p("C03", [("laws", "bbox")])
p("C04", [("laws", "color")])
p("C05", [("laws", "path")])
p("C06", [("laws", "normpath")])
p("C07", [("laws", "twins")])
p("C08", [("laws", "box")])
p("C09", [("laws", "graph")])
p("C10", [("laws", "axis")])
p("C11", [("laws", "tick")])
p("C25", [("laws", "attr")])
p("C12", [("laws", "svgfile")])
p("C13", [("laws", "dvi")])
p("C14", [("laws", "t1")])
p("C15", [("laws", "t1code")])
p("C18", [("laws", "vocabulary"), ("laws", "pictures")])
p("C16", [("laws", "structure")])
p("C17", [("laws", "leaks")])
p("C19", [("laws", "extents")])
p("C20", [("laws", "pdfvalid")])
p("C21", [("laws", "resources")])
p("C22", [("laws", "repeat")])
p("C23", [("laws", "alias"), ("sharing", "c23")])
p("C24", [("laws", "rebuild")])
KINDNOTE = ("All modules of /repo/pyx are analysed together: an abstract interpretation to a fixed point computes for every variable, attribute, parameter and result the kinds of values "
            "it can have (class instances, functions, modules, containers with the kinds of their elements, text, bytes, numbers, or unknown), following calls, methods, closures and inheritance over the whole program. "
            "A rule reports a construct only where every reading of the computed kinds makes it fail, or for mixing rules where text and bytes both reach the same place; unknown kinds are never reported. "
            "Assumes that user code uses the library as its own modules do, kinds of parameters of unused functions are unknown. ")
p("C27", [("names", "c27")], technique=RULES, note=KINDNOTE, assumptions=("dynamically created attributes and exec are not followed",))
p("C29", [("release", "c29")], technique=RULES, note="Forward dataflow analysis over all functions of /repo/pyx, using the call targets of the whole-program analysis: every acquired file, process and temporary file is followed through assignments, wrappers, with statements, exception edges, finally blocks and calls until it is released, handed out or kept by an object which releases it. Exceptions are assumed to be possible wherever something is called. ", assumptions=("exceptions arise in calls only",))
p("C28", [("names", "c28")], technique=RULES, note=KINDNOTE, assumptions=("parameters which no module of the library supplies are unknown and not decided",))
p("C26", [("sharing", "c26")], technique=RULES, note="Interprocedural points-to and side effect analysis of all functions of /repo/pyx: for every function, which objects reachable from its parameters (by access path) it may modify in place, return or store where, with flow sensitive local variables, through calls (targets from the whole-program analysis of kinds), containers and the private and shared data objects passed between the methods of styles. ", assumptions=("objects modified through eval, exec or setattr with computed names are not followed", "access paths longer than two fields are summarised"))
p("C30", [("laws", "engine")])
