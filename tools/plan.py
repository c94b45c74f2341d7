"""What each property's check runs. See DESIGN.md."""
class MC:
    def __init__(s, module, quick, thorough=None, invs=(), acts=(), props=(), view=None, cons=(), scripts=True, dedupe=False, sim=None, spec="Spec"):
        s.module, s.quick, s.thorough = module, quick, thorough or quick
        s.invs, s.acts, s.props, s.view, s.cons, s.scripts, s.dedupe, s.sim = invs, acts, props, view, cons, scripts, dedupe, sim
        s.count = 0; s.spec = spec
class Drive:
    """bevy: run the driver on the types of the Bevy extension (hbevy)"""
    def __init__(s, cmd, n=None, use_scripts=True, bevy=False): s.cmd, s.n, s.use_scripts, s.bevy = cmd, n, use_scripts, bevy
class Validate:
    """all: whatever the module rejects breaks this property"""
    def __init__(s, module, chunk=40000, all=False): s.module, s.chunk, s.all = module, chunk, all

def c(**k): return k
ASSUME = ["TLC, its Json module and the JVM evaluate the specification correctly",
          "the harness's projection reads the public accessors faithfully (mutations of any accessor show up as rejected events)"]
def poly(*invs):
    return [MC("MCPoly", c(W=2, H=2, MaxN=6, Deep="TRUE"), c(W=3, H=2, MaxN=7, Deep="TRUE"), invs=invs or ("Fits",), scripts=False),
            MC("MCPoly", c(W=2, H=2, MaxN=8, Deep="FALSE"), c(W=3, H=2, MaxN=8, Deep="FALSE"), invs=("Sweeps", "Emit"))]
def bevy(cmd, n, module, chunk=6000): return [Drive(cmd, n=n, use_scripts=False, bevy=True), Validate(module, chunk, all=True)]
def he(quick, thorough, emit=True):
    return MC("MCHalfEdge", quick, thorough, invs=("TypeOK", "Genus"), acts=("Emit",) if emit else (), props=("NothingVanishes",), view="View", scripts=emit)

PLAN = {
 "C01": dict(stages=[he(c(MaxE=8, MaxV=4, MaxF=1, Rich="FALSE"), c(MaxE=8, MaxV=5, MaxF=2, Rich="FALSE")), Drive("build", n=(250, 6000)), Validate("TraceBuild")]),
 "C02": dict(stages=[he(c(MaxE=6, MaxV=4, MaxF=2, Rich="FALSE"), c(MaxE=8, MaxV=4, MaxF=2, Rich="FALSE")), Drive("build", n=(700, 8000)), Validate("TraceBuild")]),
 "C03": dict(stages=[MC("MCStore", c(Ops=7, Cap=3), c(Ops=9, Cap=4), invs=("TypeOK",), acts=("Emit",), props=("Stable",), view="View", dedupe=True),
                     Drive("store", n=(240, 6000)), Validate("TraceStore")]),
 "C04": dict(stages=[he(c(MaxE=6, MaxV=4, MaxF=2, Rich="FALSE"), c(MaxE=8, MaxV=4, MaxF=2, Rich="FALSE")), Drive("walk", n=(150, 3000)), Validate("TraceMesh")]),
 "C05": dict(stages=[he(c(MaxE=6, MaxV=4, MaxF=2, Rich="FALSE"), c(MaxE=8, MaxV=4, MaxF=2, Rich="FALSE")), Drive("query", n=(120, 2500)), Validate("TraceMesh")]),
 "C06": dict(stages=[he(c(MaxE=6, MaxV=4, MaxF=2, Rich="FALSE"), c(MaxE=8, MaxV=4, MaxF=2, Rich="FALSE")), Drive("check", n=(250, 6000)), Validate("TraceMesh")]),
 "C07": dict(stages=[he(c(MaxE=6, MaxV=4, MaxF=1, Rich="TRUE"), c(MaxE=6, MaxV=4, MaxF=2, Rich="TRUE")), Drive("build", n=(300, 6000)), Validate("TraceBuild")]),
 "C08": dict(stages=[MC("MCLoft", c(MaxE=6, MaxV=4, MaxF=1, Rich="FALSE", Full="FALSE"), c(MaxE=8, MaxV=4, MaxF=1, Rich="FALSE", Full="FALSE"), invs=("TypeOK", "Strips", "EmitOps"), view="View"),
                     Drive("loft", n=(400, 6000)), Validate("TraceLoft")]),
 "C09": dict(stages=[MC("MCTri", c(MaxE=16, MaxV=6, MaxF=5, Rich="FALSE"), c(MaxE=18, MaxV=6, MaxF=6, Rich="FALSE"), invs=("TypeOK", "Triangles", "EmitOps"), view="View", spec="TriSpec"),
                     Drive("sub", n=(2500, 16000)), Validate("TraceSub", 4000)]),
 "C10": dict(stages=[MC("MCPrim", c(MaxN=7, MaxM=4, Freq="{1, 2}", Lengths="{768, 2048}"), c(MaxN=12, MaxM=7, Freq="{1, 2, 4}", Lengths="{300, 768, 2048, 5000}"), invs=("SchemeClosed", "Textbook", "EmitIn")),
                     Drive("prim", n=(1500, 12000)), Validate("TracePrim", 1500), Drive("outlines", n=(200, 3000)), Validate("TracePlane", 6000)]),
 "C11": dict(stages=poly() + [Drive("tile", n=(700, 9000)), Validate("TracePoly")]),
 "C12": dict(stages=poly() + [Drive("minw", n=(2500, 30000)), Validate("TracePoly")]),
 "C13": dict(stages=poly() + [Drive("cdt", n=(3000, 40000)), Validate("TracePoly")]),
 "C28": dict(stages=poly("Parted", "Sweeps") + [Drive("sweeps", n=(1500, 40000)), Validate("TracePoly")]),
 "C15": dict(stages=[MC("MCConvert", c(MaxE=6, MaxV=4, MaxF=2, Rich="FALSE"), c(MaxE=8, MaxV=4, MaxF=2, Rich="FALSE"), invs=("TypeOK", "Packs"), acts=("Emit",), props=("Tells",), view="View"),
                     Drive("convert", n=(350, 8000)), Validate("TraceConvert", 4000)]),
 "C16": dict(stages=[MC("MCCurves", c(MaxE=6, MaxV=4, MaxF=2, Rich="FALSE"), c(MaxE=8, MaxV=4, MaxF=2, Rich="FALSE"), invs=("TypeOK",), acts=("Emit",), props=("Refinement",), view="View"),
                     Drive("flatten", n=(120, 4000)), Validate("TraceCurves", 1500)]),
 "C17": dict(stages=[MC("MCPath", c(MaxE=10, MaxV=5, MaxF=2, Rich="FALSE", Paths=2), c(MaxE=12, MaxV=6, MaxF=3, Rich="FALSE", Paths=2), invs=("TypeOK", "Knows", "Walk", "Filling"), acts=("Emit",), props=("Faces",), view="PView", spec="PSpec"),
                     Drive("path", n=(300, 6000)), Validate("TracePath", 4000)]),
 "C18": dict(stages=[MC("MCIso", c(MaxE=6, MaxV=4, MaxF=2, Rich="FALSE"), c(MaxE=8, MaxV=4, MaxF=2, Rich="FALSE"), invs=("TypeOK", "Relations"), acts=("Emit",), props=("Noticed",), view="View"),
                     Drive("iso", n=(200, 6000)), Validate("TraceIso", 4000), Drive("isoc", n=(100, 4000)), Validate("TraceIso", 4000)]),
 "C19": dict(stages=[MC("MCAffine", c(Steps=3), c(Steps=4), invs=("Composes", "Directions", "Short", "Associative"), acts=("Emit",)),
                     Drive("affine", n=(1200, 8000)), Validate("TraceAffine", 6000)]),
 "C20": dict(stages=[MC("MCNet", c(MaxE=6, MaxV=4, MaxF=2, Rich="FALSE"), c(MaxE=8, MaxV=4, MaxF=2, Rich="FALSE"), invs=("TypeOK", "Graph"), acts=("Emit",), view="View"),
                     Drive("net", n=(250, 6000)), Validate("TraceNet", 4000)]),
 "C14": dict(stages=[MC("MCScene", c(Sizes="{1, 2, 5}"), c(Sizes="{1, 2, 3, 5, 8}"), invs=("Sound", "Emit"))] + [Drive("export", n=(1500, 20000)), Validate("TraceScene", 4000)]),
 "C22": dict(stages=[MC("MCScene", c(Sizes="{1, 2, 5}"), c(Sizes="{1, 2, 3, 5, 8}"), invs=("Sound", "Emit"))] + [Drive("smooth", n=(2500, 40000)), Validate("TraceScene", 4000)]),
 "C21": dict(stages=poly("Lifts", "Splits") + [Drive("plane", n=(900, 12000)), Validate("TracePlane", 6000)]),
 "C23": dict(stages=[MC("MCBuf", c(Tris3="FALSE", Most=2), c(Tris3="TRUE", Most=2), invs=("TypeOK", "Verified"), acts=("Emit",), props=("Keeps", "Flips"), view="View")] + poly("Splits")[1:] +
                    [Drive("buffer", n=(500, 20000)), Validate("TraceBuf")]),
 "C24": dict(stages=poly("Sweeps", "Lifts", "Tolerant") + [Drive("corners", n=(4000, 60000)), Validate("TracePlane")]),
 "C25": dict(stages=[MC("MCSums", c(P=6, Most=3, Digits="{1, 2, 5}"), c(P=6, Most=4, Digits="{1, 2, 5}"), invs=("Format", "Lossless", "Neumaier", "Kahan"), acts=("Emit",)),
                     Drive("sums", n=(400, 8000)), Validate("TraceSums", 6000)]),
 "C26": dict(stages=[MC("MCText", c(Most=4), c(Most=6), invs=("Width", "Parts", "Apart"), acts=("Emit",)),
                     Drive("text", n=(1500, 20000)), Validate("TraceText", 6000)]),
 "C27": dict(stages=[MC("MCRender", c(Most=3, Steps=2), c(Most=5, Steps=3), invs=("Shown", "Forgets"), props=("Keeps",), scripts=False)] +
                    bevy("render", (1500, 16000), "TraceRender") + bevy("maps", (400, 6000), "TraceAffine") + bevy("vectors", (300, 3000), "TraceSums") +
                    bevy("build", (60, 1500), "TraceBuild") + bevy("loft", (60, 1500), "TraceLoft") + bevy("sub", (50, 1500), "TraceSub", 4000) +
                    bevy("prim", (200, 3000), "TracePrim", 1500) + bevy("flatten", (12, 500), "TraceCurves", 1500) + bevy("convert", (35, 1500), "TraceConvert", 4000) +
                    bevy("path", (60, 1500), "TracePath", 4000) + bevy("text", (200, 4000), "TraceText") + bevy("plane", (150, 3000), "TracePlane") +
                    bevy("tile", (120, 2500), "TracePoly", 40000) + bevy("export", (250, 5000), "TraceScene", 4000) + bevy("smooth", (200, 5000), "TraceScene", 4000)),
}
for p in PLAN.values():
    p.setdefault("assumptions", ASSUME)
