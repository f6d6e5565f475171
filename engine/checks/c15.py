"""Connected output of boolean operations."""
from harness import *
from checks.c13 import *
import checks.c13 as c13

LEVEL = "other"
OPN = ["union", "intersection", "difference", "one solid", "union of ids", "difference of ids", "inverted solid"]


def check(chk):
    chk.anchors = ("EdgeLineConnector<", "ConnectingVisitor<", "ConnectedPolygon<")
    chk.rule = ("Closed meshes are put in a tree and traversed with a connecting visitor; the program is interpreted with symbolic "
                "coordinates, one sign cell at a time. Every edge of the output must have a partner that has it as its partner, "
                "runs between the same two points the other way, and belongs to the first facet met when turning around the "
                "edge through the solid; no error is reported; and the facets must bound what the operation says.")
    chk.session("csg.cpp", defines=())
    deep = chk.tier != "quick"
    tasks = []

    def t(name, *a):
        tasks.append((name, lambda: batch(chk, name, "wv_connect", *a)))
    kd = [0, 1, 2, 6, NOKD]
    for part in range(20 if deep else 5):
        ops = OPN[part % 4:] + OPN[:part % 4]
        st = "axis" if part % 2 else "free"
        t("two tetrahedra, part %d" % part, ops, [TETRA, TETRA], st, "free", kd, 0, 2, 100 + part)
        t("aligned boxes, part %d" % part, ops, [CUBE, CUBE], "axis", "free", kd, 0, 2, 200 + part)
        t("solids with common facet planes, part %d" % part, ops, [(CUBE, WEDGE)[part % 2], (WEDGE, CUBE, TETRA)[part % 3]], "axis", "shift", kd, 0, 3, 300 + part)
        t("nested and identical solids, part %d" % part, ops, [TETRA, TETRA], st, ("inner", "same")[part % 2], kd, 0, 4, 400 + part)
        t("touching solids, part %d" % part, ops, [CUBE, (CUBE, TETRA)[part % 2]], "axis", "touch", kd, 0, 2, 500 + part)
        t("trees that are split already, part %d" % part, ops, [TETRA, WEDGE], "axis", ("free", "shift")[part % 2], kd, 1 + part % 3, 2, 600 + part)
    chk.par(tasks)
    finish(chk, "edges")
