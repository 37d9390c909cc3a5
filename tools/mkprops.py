#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=" ".join(statement.split()),
             quantifier=dict(over=over, text=" ".join(text.split())),
             why_tests_cant=" ".join(why.split()),
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    assert d["statement"].count(". ") <= 2, d["statement"]
    P.append(d)

prop("C01", "Affine transformations form an algebra",
 """Applying a product of transformations to a point equals applying the factors one after the other, the inverse
 undoes a transformation, and a singular matrix is rejected. Every named transformation (translate, rotate, mirror,
 scale, slant) has its textbook matrix, and every chaining method equals multiplication with the named
 transformation, for lengths as well as for plain point coordinates.""",
 ["inputs"], "all matrices, vectors, angles, centres and points",
 """The unit tests compare a handful of fixed numeric matrices; a wrong cross term that vanishes for those samples
 (or is only reached through one chaining method) passes.""",
 ["pyx/trafo.py"], [("matrix product / point application / inverse", "trafo.trafo_pt.__mul__, apply_pt, inverse"),
 ("chaining methods", "trafo.trafo_pt.translated, rotated, mirrored, scaled, slanted and _pt twins"),
 ("named transformations", "trafo.translate, rotate, mirror, scale, slant and _pt twins")])

prop("C02", "Length arithmetic is linear and unit conversions are consistent",
 """A length is a linear combination of true, user, visual, width and TeX contributions; sums, differences, negation and
 multiples act on each contribution separately and never mix them. Conversion to any unit scales user, visual, width
 and TeX contributions by the corresponding configured factor, true contributions by none, and conversions to
 different units differ only by the fixed ratio of these units.""",
 ["inputs", "configurations"], "all lengths, all operand kinds (numbers, lengths), all settings of the unit scales",
 "Tests check few sample lengths with a few scale settings; mixing of contributions shows only for unusual combinations.",
 ["pyx/unit.py"], [("length arithmetic", "unit.length.__add__/__sub__/__mul__/__neg__/..."), ("conversions", "unit.topt, tomm, tocm, tom, toinch and unit.set")],
 state=[("unit.scale", "the configured scale of each unit kind", "unit.scale / unit.set")])

prop("C03", "Bounding boxes behave as the lattice of axis-parallel rectangles",
 """The union of bounding boxes is the smallest rectangle covering both (an empty one being neutral), membership and
 intersection tests agree with the rectangle's corners, and a transformed, enlarged or outlined bounding box covers
 exactly the transformed corners, the requested margins and the four edges. All accessors report the same rectangle in
 lengths and in points, and asking an empty bounding box for a coordinate is an error.""",
 ["inputs"], "all bounding boxes (including empty ones), margins and transformations",
 "Only few boxes are drawn in the functional tests whose output nobody compares; wrong corners for rotated boxes or a lost margin pass.",
 ["pyx/bbox.py"], [("set operations", "bbox.bbox_pt.__iadd__, __add__, includepoint_pt, intersects"), ("derived boxes", "bbox.bbox_pt.transform, transformed, enlarge, enlarged, rect, path"), ("accessors", "bbox.bbox_pt.left ... center and _pt twins")])

prop("C04", "Colours keep their components through every output and conversion",
 """Each colour of each colour space emits its components unchanged, in order, with the operator of its colour space in
 PostScript and PDF, and both stroke and fill colour are set in PDF, each unless the context asks otherwise.
 Conversions between grey, RGB, CMYK and HSB follow the documented formulas, byte encodings quantise each component
 in colour-space order, and a gradient returns the start and end colour at its ends.""",
 ["inputs"], "all component values of all colour spaces, all gradient parameters",
 "Tests only write files with some colours and do not look at the result.",
 ["pyx/color.py"], [("operators", "color.grey/rgb/hsb/cmyk.processPS/processPDF/processSVG"), ("conversions", "color.*.grey/rgb/cmyk/hsb, to8bitbytes, rgb.tohexstring"), ("gradients", "color.lineargradient_*/functiongradient_*")])

prop("C05", "A path element means the same in every representation",
 """For every path construction element and every current point, the current point and subpath start left behind are the
 same whether the path is normalised, measured for its bounding box, or exported as SVG data, and they are those
 PostScript defines for the corresponding operator. The geometry a path element contributes to the normalised path,
 to PostScript and PDF output and to the SVG data is the same curve, and relative elements equal the absolute element
 at current point plus offset.""",
 ["inputs", "programs"], "all path element kinds, all coordinates, all sequences of elements",
 "Functional tests write drawings without comparing them; only a few sequences of elements occur at all.",
 ["pyx/path.py"], [("per element methods", "path.<pathitem>.updatebbox/updatenormpath/outputPS/returnSVGdata"), ("creation of the context", "path.<pathitem>.createcontext/createbbox/createnormpath")],
 state=[("context", "current point and subpath start", "path.context")])

prop("C06", "Line and Bezier segments obey their parametrisation",
 """Point evaluation of a normalised line or curve follows the Bernstein form of its control points; reversing, splitting
 and transforming a segment yields segments whose points are the reversed, reparametrised and transformed points of the
 original. Tangent, curvature and rotation are those of the same parametrisation, and swapping the roles of x and y swaps
 the results.""",
 ["inputs"], "all control points, parameters and transformations",
 "Tests evaluate few fixed curves at few parameters, mostly x-symmetric or axis parallel ones.",
 ["pyx/normpath.py"], [("line", "normpath.normline_pt methods"), ("curve", "normpath.normcurve_pt methods")])

prop("C07", "Length based and point based interfaces agree",
 """Wherever the library offers the same operation for lengths and for plain PostScript points, both denote the same
 operation: the length variant converts each length argument to points exactly once and a length result is the point
 result times one point. Values in points never enter an interface expecting user lengths and vice versa.""",
 ["inputs", "configurations"], "all pairs of twin operations, all arguments, all unit scale settings",
 "With the default scale settings many unit mix-ups are invisible, and most twins have no test at all.",
 ["pyx/path.py", "pyx/normpath.py", "pyx/trafo.py", "pyx/box.py", "pyx/bbox.py", "pyx/canvas.py", "pyx/connector.py", "pyx/bitmap.py", "pyx/graph/graph.py", "pyx/graph/axis/axis.py"],
 [("twin pairs", "every X / X_pt pair of functions, methods and classes in pyx")])

prop("C08", "Boxes align with their true geometry",
 """Alignment of a box to a line or circle moves the box such that it touches the line or circle at the given distance in
 the given direction, using the corners or edges of the box as it is now; translation, transformation and reading the
 extent act on all corners and on the centre alike. Rectangles and polygons keep their corners in order, and the results
 are invariant under exchange of the axes.""",
 ["inputs"], "all boxes, distances and directions",
 "A single unit test measures a distance, the functional test draws without comparison.",
 ["pyx/box.py"], [("alignment", "box.polygon_pt.circlealignvector_pt, linealignvector_pt, _extreme..."), ("extent and movement", "box.polygon_pt.extent_pt, transform, align")])

prop("C09", "Graph coordinates map consistently onto the page",
 """A position computed from axis values, from relative graph coordinates, as length or in points is the same place; grid
 lines, geodesics, axis base lines and tick positions pass through these places; flipping a graph exchanges the two
 directions and nothing else. Three-dimensional projections are linear (or central) with an orthonormal image basis, and
 every tick/grid/basepath helper of an axis is the one of that very axis in the kind (value or relative, lengths or points) its
 name states.""",
 ["inputs", "configurations"], "all graph sizes, positions, axis values, projections and flip settings",
 "Plots are only produced, never compared, so any displacement passes.",
 ["pyx/graph/graph.py", "pyx/graph/axis/positioner.py"], [("positions", "graph.graphxy.pos/vpos/pos_pt/vpos_pt and graphx/graphxyz twins"), ("lines", "graph.*.vgeodesic, vgeodesic_el, vcap_pt, xvgridpath ..."), ("axis positioners", "positioner.lineaxispos_pt, pathpositioner, flexlineaxispos_pt")])

prop("C10", "Axes map their range onto the unit interval",
 """Every continuous axis maps its minimum to 0 and its maximum to 1 (exchanged when reversed), linear axes affinely and
 logarithmic axes by the logarithm for ranges of either sign; a subaxis occupies exactly its part of the parent axis. The data range
 of an axis is extended only by values that can be converted, fixed limits are never changed by data, and data ranges
 only grow.""",
 ["inputs", "histories"], "all ranges, values, subaxis layouts and orders of data",
 "Tests create few plots without comparing positions, hardly any reversed, negative or nested axes.",
 ["pyx/graph/axis/axis.py"], [("conversion", "axis.linear/logarithmic/bar.convert, timeaxis.convert"), ("ranges", "axis._regularaxis.adjustaxis"), ("subaxes", "axis.subaxispositioner, axis.bar.create")],
 state=[("axis data", "min/max/ticks of an axis in one graph", "axis.axisdata")])

prop("C11", "Tick positions are exact rationals and ordered lists merge correctly",
 """Tick arithmetic is exact: products, quotients, powers and comparisons of ticks agree with those of the rational
 numbers they denote, and the decimal and fraction strings accepted denote their mathematical value. Merging keeps the
 lowest tick and label level and the label for equal positions.""",
 ["inputs"], "all rationals, strings and tick lists",
 "Tests cover few literal numbers, hardly any negative ones or quotients.",
 ["pyx/graph/axis/tick.py", "pyx/graph/axis/parter.py"], [("rational arithmetic", "tick.rational"), ("merging", "tick.tick.merge, tick.mergeticklists, tick.maxlevels")])

prop("C12", "Imported SVG path data denote the drawn path",
 """Each SVG path command appends the element the SVG specification defines, a relative command equals the
 absolute command at the current point, and smooth curve commands continue with the reflected control point of the
 preceding curve. Sizes and view boxes are scaled to points with a single consistent factor.""",
 ["inputs"], "all SVG path data and size attributes",
 "One functional test parses some files and compares nothing.",
 ["pyx/svgfile.py"], [("path data", "svgfile.svgBaseHandler / svgDocument path parsing"), ("scaling", "svgfile.svgfile_pt")])

prop("C13", "Every DVI and VF opcode is decoded as specified",
 """For every opcode of the DVI format the reader consumes exactly the operands the format defines, with the right width
 and signedness, and updates the position registers, stack and font as the format defines; no-ops have no effect. Characters and rules are
 placed at the current position before or without it being advanced, as set or put commands demand, and text is flushed before position, font or colour changes.""",
 ["inputs", "programs"], "all DVI/VF byte sequences",
 "Two recorded DVI files are read; many opcodes never occur in them.",
 ["pyx/dvi/dvifile.py", "pyx/reader.py", "pyx/dvi/vffile.py", "pyx/dvi/tfmfile.py"], [("opcode dispatch", "dvifile.DVIfile.readpage, _read_pre..., vffile.VFfile"), ("operand readers", "reader.reader.readint*, readuint*")],
 state=[("position registers", "h, v, w, x, y, z and the stack", "dvifile.DVIfile.pos, stack")])

prop("C14", "Type 1 charstring commands move the pen as specified",
 """Each charstring command has its code of the Type 1 specification, and the current point after it, the path it
 draws and the operands it consumes are the ones the specification defines, for outline extraction just as
 for gathering the glyphs and subroutines in use. Number encoding and decoding of charstrings are inverse to each other over the
 full integer range.""",
 ["inputs", "programs"], "all charstrings",
 "Only fonts found by TeX are read in the tests, if TeX is available at all.",
 ["pyx/font/t1file.py"], [("commands", "t1file._T1cmd subclasses updatepath / gathercalls"), ("number coding", "t1file.T1file._cmds, _code")])

prop("C15", "Type 1 decryption and encryption are inverse and agree in Python and C",
 """Encrypting and then decrypting font data with the same key yields the original data for every input, the
 Python and the C implementation perform the same computation, and both use the constants of the Type 1 specification
 for eexec and charstrings.""",
 ["inputs"], "all byte sequences, keys and numbers of random bytes",
 "No test calls these functions.",
 ["pyx/font/t1code.py", "pyx/font/_t1code.c", "pyx/font/t1file.py"], [("cipher", "t1code.decoder/encoder, _t1code.c py_decoder/py_encoder"), ("keys", "t1file.T1file.eexecr, charstringr")])

prop("C16", "Graphics state and structure brackets are balanced on every output path",
 """Every graphics-state save, text object, marked group, dictionary, array, object, stream, document section or XML
 element that an output routine opens is closed by it again on every path through the routine, in
 reverse order, whatever attributes, decorators or options are set; nothing is closed that was not opened.""",
 ["inputs", "programs", "configurations"], "all canvases, attributes, options and all paths through the output code",
 "Unbalanced output still lets the tests pass as no viewer is run; most attribute combinations are never written.",
 ["pyx/canvas.py", "pyx/deco.py", "pyx/pswriter.py", "pyx/pdfwriter.py", "pyx/svgwriter.py", "pyx/pattern.py", "pyx/bitmap.py", "pyx/epsfile.py", "pyx/font/font.py", "pyx/mesh.py", "pyx/pdfextra.py"],
 [("bracket emission", "every file.write / startSVGElement in the process* and output* methods")], observe=["PS, PDF and SVG files"])

prop("C17", "Attributes set inside a canvas or path do not leak out",
 """Attributes (colours, styles, transformations, clips, text settings) applied to a canvas or a path affect the items inside
 it only: the writer's bookkeeping of the current state is copied before it is changed and is the caller's again
 afterwards. Two writes of the same canvas yield the same drawing.""",
 ["programs", "histories"], "all nestings of canvases, decorated paths and attributes; all sequences of output calls",
 "Leaks need particular sequences of items and comparing the output, which no test does.",
 ["pyx/canvas.py", "pyx/deco.py", "pyx/style.py", "pyx/color.py", "pyx/pdfwriter.py", "pyx/pswriter.py", "pyx/svgwriter.py", "pyx/pattern.py"],
 [("context copies", "context() / copy in canvas.process*, deco.decoratedpath.process*")],
 state=[("output context", "current line width, colour, fill and stroke attributes, font", "pswriter.context, pdfwriter.context, svgwriter.context")])

prop("C18", "All output formats support the same drawing vocabulary",
 """Every item that can be inserted into a canvas and every attribute that can be applied has an output method for
 PostScript, PDF and SVG or raises a deliberate error, accepts the arguments the writer passes, and performs the same kind
 of effects (marks, bounding box, resources, state changes) in each format. All concrete classes implement the abstract
 methods of their interface.""",
 ["programs", "configurations"], "all item and attribute classes, all output formats",
 "Each test writes few kinds of items in all formats; a missing or misnamed method only shows when it is called.",
 ["pyx/baseclasses.py", "pyx/canvas.py", "pyx/deco.py", "pyx/style.py", "pyx/color.py", "pyx/trafo.py", "pyx/path.py", "pyx/normpath.py", "pyx/font/font.py", "pyx/bitmap.py", "pyx/mesh.py", "pyx/pattern.py", "pyx/epsfile.py"],
 [("interface", "baseclasses.canvasitem, pathitem/normsubpathitem, font.text_pt")])

prop("C19", "Everything drawn is accounted for in the bounding box",
 """Each drawing method that marks the page also extends the bounding box it is given by what it draws (honouring
 transformations and clips of the enclosing canvas), in each output format, and the bounding box asked for without output is the same.
 A stroke extends the bounding box by its width where one is known, and a clip limits the bounding box of what it clips.""",
 ["programs", "configurations"], "all items, canvases and nestings; all output formats",
 "Bounding boxes of written files are not compared with the content by any test.",
 ["pyx/canvas.py", "pyx/deco.py", "pyx/bitmap.py", "pyx/epsfile.py", "pyx/mesh.py", "pyx/font/font.py", "pyx/graph/graph.py", "pyx/pdfextra.py", "pyx/pattern.py"],
 [("bbox accounting", "the bbox parameter of processPS/processPDF/processSVG and the bbox methods")])

prop("C20", "PDF files are structurally valid",
 """In a written PDF each object referenced was written exactly once with its own number, the cross-reference table
 holds the offset at which each object begins, stream lengths are those of the data written (after compression when the
 compression filter is announced), and trailer and catalogue refer to the objects registered for it. Object numbering starts at one
 and has no gaps.""",
 ["programs", "configurations"], "all documents and writer options",
 "The tests write PDFs but do not parse them.",
 ["pyx/pdfwriter.py", "pyx/pattern.py", "pyx/bitmap.py", "pyx/pdfextra.py", "pyx/font/font.py"],
 [("registry", "pdfwriter.PDFregistry.add/write/getrefno/mergeregistry"), ("objects", "pdfwriter.PDFobject subclasses write")],
 state=[("object registry", "objects by type and id with their numbers", "pdfwriter.PDFregistry")])

prop("C21", "Shared output resources are identified by all that determines them",
 """Two resources (fonts, encodings, images, patterns, forms, functions) written into a file under the same name or
 identity have the same content: every parameter that influences the content of a registered resource influences its identity. Every
 resource an output stream refers to by name is registered for that page or file under that very name.""",
 ["programs", "inputs"], "all pairs of resources in a document",
 "A collision needs two resources agreeing in the identity but not in content, which no test has.",
 ["pyx/pdfwriter.py", "pyx/pswriter.py", "pyx/font/font.py", "pyx/bitmap.py", "pyx/pattern.py", "pyx/pdfextra.py", "pyx/color.py", "pyx/epsfile.py"],
 [("identity", "constructor calls of PDFobject / PSresource with id arguments"), ("registration", "registry.add / registry.addresource")])

prop("C22", "Output is a function of the program only",
 """Writing the same drawing twice produces identical files apart from the declared creation date: no name,
 order or content in the output depends on memory addresses, hash order, process identity, randomness or wall-clock time.""",
 ["histories", "configurations"], "all runs, interpreter hash seeds and memory layouts",
 "The tests run once and compare nothing; a single run cannot show nondeterminism.",
 ["pyx/pdfwriter.py", "pyx/pswriter.py", "pyx/svgwriter.py", "pyx/pdfextra.py", "pyx/pattern.py", "pyx/font/font.py", "pyx/bitmap.py", "pyx/graph/data.py", "pyx/graph/graph.py"],
 [("name generation", "registry ids and resource names"), ("iteration", "loops over sets / dictionaries in output code")])

prop("C23", "Geometry operations return new objects and leave operands untouched",
 """Operations on paths, normalised paths, transformations, lengths, bounding boxes and colours that return a result leave their
 operands, arguments and any previously returned object unchanged, and the result does not share mutable parts with the
 operands such that a later in-place change of one would alter the other. Default arguments and class level defaults
 are never modified.""",
 ["histories", "inputs"], "all sequences of operations on all objects",
 "Aliasing shows only after a particular later modification of one of the objects.",
 ["pyx/path.py", "pyx/normpath.py", "pyx/trafo.py", "pyx/bbox.py", "pyx/unit.py", "pyx/color.py", "pyx/deformer.py", "pyx/attr.py", "pyx/box.py", "pyx/deco.py", "pyx/graph/style.py", "pyx/graph/key.py"],
 [("copying", "joined/reversed/transformed/split/... of path, normpath, normsubpath; list concatenations of attribute defaults")])

prop("C24", "Calling a parametrised instance changes only the given parameters",
 """Parametrised instances (decorators, deformers, painters, texters, partitioners, raters, axes, patterns) can be called with
 keyword parameters to obtain a modified instance: parameters not given keep the value of the original, the given ones take
 effect, and the kind of instance stays the same. The original is not modified.""",
 ["inputs", "programs"], "all such classes, all subsets of parameters, all values",
 "Tests call few instances with single parameters; a forgotten parameter silently falls back to its default.",
 ["pyx/deco.py", "pyx/deformer.py", "pyx/pattern.py", "pyx/style.py", "pyx/graph/axis/axis.py", "pyx/graph/axis/painter.py", "pyx/graph/axis/parter.py", "pyx/graph/axis/rater.py", "pyx/graph/axis/texter.py", "pyx/utils.py"],
 [("modified copies", "__call__ methods together with the constructors"), ("prefix routing", "utils.kwsplit, utils.merge_members_kwargs")])

prop("C25", "Attribute lists follow the exclusive, sorting, clear and change rules",
 """In an attribute list the last of mutually exclusive attributes wins, a clear attribute removes earlier attributes of exactly
 its kind, sorting attributes come before the ones they must precede, and an attribute of a kind an operation does not accept is
 rejected. Changeable attributes select the item determined by index and total, leaving fixed attributes as they are.""",
 ["inputs", "programs"], "all attribute lists, indices and totals",
 "Unit tests try few lists; which classes exclude or clear each other is spread over many modules and not tested.",
 ["pyx/attr.py", "pyx/deco.py", "pyx/style.py", "pyx/text.py", "pyx/color.py", "pyx/canvas.py", "pyx/deformer.py", "pyx/pattern.py"],
 [("list processing", "attr.mergeattrs, checkattrs, getattrs, selectattr(s)"), ("class declarations", "attr.exclusiveattr/sortbeforeattr/clearclass uses")])

prop("C26", "Graph styles and data can be shared between graphs",
 """A graph style or data instance keeps no per-graph information: drawing a graph with it does not change the instance, so
 using it in several graphs or several times in the same graph is safe. Every piece of shared data a style accesses is set by itself or
 kept by the styles which provide what it declares to need, and everything declared to be provided is set, not later than other styles read it.""",
 ["histories", "programs"], "all combinations of styles, data and graphs, all orders of plotting",
 "Tests use each style instance in one graph.",
 ["pyx/graph/style.py", "pyx/graph/data.py", "pyx/graph/graph.py", "pyx/graph/key.py"],
 [("per-graph storage", "privatedata / sharedata parameters of style methods"), ("declarations", "needsdata / providesdata, registerdefaultprovider")])

prop("C27", "No reachable operation fails for internal naming or calling mistakes",
 """Whatever the arguments, no library operation ends in a failure that stems from the library itself using a name,
 module attribute, method or parameter which does not exist, a call with arguments its target cannot accept, a format
 string not fitting its arguments, or a raised object which is not an exception. Error conditions detected are actually raised.""",
 ["inputs", "programs"], "all statements of the library on all paths",
 "Many error and option paths are never executed by the tests, and Python finds such mistakes only on execution.",
 ["pyx"], [("all modules", "every name, attribute and call in pyx/**/*.py")])

prop("C28", "Binary data and text are never mixed",
 """Data read from binary files (fonts, metrics, DVI, images, EPS) is processed as bytes and only decoded deliberately; no operation combines,
 compares or searches bytes with text, and no text is written to a binary sink or bytes to a text sink.""",
 ["inputs", "configurations"], "all file contents and all paths of the readers and writers",
 "Python reports such mixes only when the statement is executed; comparisons of bytes with text silently are false.",
 ["pyx/font/t1file.py", "pyx/font/pfmfile.py", "pyx/dvi/dvifile.py", "pyx/epsfile.py", "pyx/bitmap.py", "pyx/reader.py", "pyx/graph/data.py", "pyx/pdfwriter.py"],
 [("byte handling", "all expressions on data originating from binary files")])

prop("C29", "Files and helper processes are released on every path",
 """Every file the library opens for itself is closed again on every path through the operation, including the error
 paths, unless it is handed out to the caller; temporary files and directories it creates are removed, and started helper
 processes are waited for.""",
 ["fault_sequences", "inputs"], "all paths through all operations, including those on which an exception is raised",
 "Leaks do not fail tests.",
 ["pyx/document.py", "pyx/config.py", "pyx/bitmap.py", "pyx/epsfile.py", "pyx/svgfile.py", "pyx/text.py", "pyx/graph/data.py", "pyx/font/t1file.py", "pyx/dvi/mapfile.py", "pyx/dvi/encfile.py", "pyx/dvi/tfmfile.py", "pyx/pdfwriter.py", "pyx/metapost/mp_path.py"],
 [("acquisition and release", "open/with/close, tempfile, subprocess.Popen")])

prop("C30", "The TeX engine runs through its states in order and waits for each answer",
 """The TeX interpreter is started once, accepts preambles only before the first text, is asked for text only while it is running, and after it was finished
 is not written to again unless restarted. Each instruction sent is followed by waiting for its acknowledgement, whose missing is reported as an
 error, and cleanup happens whenever the interpreter was started. Each text box shows the page typeset for it, a failing
 text does not disturb the ones before and after it, and only output the message parsers know is accepted.""",
 ["histories", "fault_sequences", "schedules"], "all orders of calls and all interpreter responses",
 "TeX is usually absent when testing; only the message parsers are unit tested.",
 ["pyx/text.py"], [("state guards", "text.SingleEngine state attribute and do_* methods"), ("acknowledgement", "text.MonitorOutput expect/done/wait")],
 state=[("engine state", "start, preamble, typeset, done", "text.SingleEngine.state")])

prop("C31", "Intersection of paths finds every crossing",
 "The parameters returned by intersecting two paths are all parameters at which the paths cross, up to the accuracy of the paths.",
 ["inputs"], "all pairs of paths", "Tests intersect few curves.",
 ["pyx/normpath.py"], [("recursive bisection", "normpath.normcurve_pt.intersect, normsubpath.intersect")])
prop("C32", "Arc length and parameters convert within the accuracy",
 "Converting arc lengths to parameters and back returns the arc length within the accuracy of the path, and arc length parameters are monotonic.",
 ["inputs"], "all paths and lengths", "Tests use few curves.",
 ["pyx/normpath.py"], [("adaptive subdivision", "normpath.normcurve_pt._arclentoparam_pt, arclen_pt")])
prop("C33", "Deformed paths stay within tolerance of the ideal deformation",
 "Smoothed, parallel and cycloid deformed paths follow the mathematical offset or smoothing of the original within the requested error and contain no spurious loops.",
 ["inputs"], "all paths and deformer parameters", "Tests draw few deformed paths.",
 ["pyx/deformer.py"], [("approximation", "deformer.parallel, smoothed, cycloid")])
prop("C34", "The chosen axis partition is the best rated one",
 "Among all tick partitions tried, the axis uses the one with the lowest rating whose labels do not overlap, and the search terminates.",
 ["inputs"], "all ranges and axis sizes", "Tests use few ranges.",
 ["pyx/graph/axis/axis.py", "pyx/graph/axis/rater.py"], [("search", "axis._regularaxis._create, rater.rater")])
prop("C35", "Text is placed where TeX put it",
 "The position and size of each typeset text box agree with the box TeX has created, including alignment attributes.",
 ["inputs"], "all texts and text attributes", "TeX output is not compared.",
 ["pyx/text.py", "pyx/dvi/dvifile.py"], [("box transfer", "text.SingleEngine.text_pt, PyXBoxPattern")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
