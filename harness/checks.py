"""Registry: how each property's check is built, and what it assumes."""
import os
CHECKS = {}
ASAN = ["-O1", "-fsanitize=address"]
PLAIN = ["-O2", "-ftrivial-auto-var-init=pattern"]

def harness(ctx, src, label, objs, inc, defs=(), flags=("-O1",), libs=()):
    exe = os.path.join(ctx["bd"], label)
    ctx["par"]([["g++", "-std=gnu++17", "-o", exe, os.path.join(ctx["H"], src)] + list(objs) + list(inc) + ["-I" + ctx["H"]]
                + list(defs) + list(flags) + ctx["CFLAGS"] + ["-lm", "-ldl", "-lpthread"] + list(libs)])
    return exe

def simple(src, defs=(), thorough_plain=True, asan_quick=True, libs=()):
    """quick: address-sanitized build; thorough: optimised build over the larger space, after the sanitized quick space"""
    def build(ctx):
        runs = []
        if ctx["tier"] == "quick":
            fl = ASAN if asan_quick else PLAIN
            objs, inc = ctx["build_lib"](ctx["bd"], "lib", fl)
            exe = harness(ctx, src, "explore", objs, inc, defs, [f for f in fl if not f.startswith("-O")] + ["-O1"], libs)
            runs.append(("explore", [exe]))
        else:
            objs, inc = ctx["build_lib"](ctx["bd"], "lib", PLAIN)
            exe = harness(ctx, src, "explore", objs, inc, defs, ["-O2"], libs)
            runs.append(("explore", [exe]))
        return runs
    return build

def reg(id, technique, build, assumptions=()):
    CHECKS[id] = dict(technique=technique, build=build, assumptions=list(assumptions))

REF = "reference model: signed simplices clipped in long double, sharing no code with the library"
reg("C01", "exhaustive bounded exploration of clip sequences on the real code, reference model in lockstep", simple("clip.cpp", ["-DDIM=2"]), [REF])
reg("C02", "exhaustive bounded exploration of clip sequences on the real code, reference model in lockstep", simple("clip.cpp", ["-DDIM=3"]), [REF])
reg("C03", "exhaustive bounded exploration of split trees on the real code, reference model in lockstep", simple("split.cpp", ["-DDIM=2"]), [REF])
reg("C04", "exhaustive bounded exploration of split trees on the real code, reference model in lockstep", simple("split.cpp", ["-DDIM=3"]), [REF])
reg("C05", "exhaustive bounded exploration of clip/split sequences on the real code, structural invariants checked in every reached state", simple("struct.cpp"), ["general position = no vertex within 1e-6 of the cutting plane"])
reg("C06", "exhaustive enumeration of shapes, clipped descendants and orders on the real code against an exact quadrature model", simple("moments.cpp", ["-DDIM=2"]), [REF])
reg("C07", "exhaustive enumeration of shapes, clipped descendants and orders on the real code against an exact quadrature model", simple("moments.cpp", ["-DDIM=3"]), [REF])
reg("C08", "exhaustive enumeration of shapes, grids, clamps and orders on the real code, every cell compared with a slab-clipping model", simple("vox.cpp", ["-DDIM=2"]), [REF])
reg("C09", "exhaustive enumeration of shapes, grids, clamps and orders on the real code, every cell compared with a slab-clipping model", simple("vox.cpp", ["-DDIM=3"]), [REF])
reg("C10", "exhaustive enumeration of shapes, spacings and clamp relations on the real code against an exact model", simple("ibox.cpp"), [REF])
reg("C11", "exhaustive enumeration of descriptions and labellings on the real code against the described region", simple("init.cpp"), [REF])
reg("C12", "exhaustive bounded exploration of clip histories, conversion checked in every reached state (topology, moments, round trip, allocation balance)", simple("brep.cpp", libs=["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"]), [REF, "general position = no vertex within 1e-6 of the cutting plane"])
reg("C13", "exhaustive enumeration of link-table mutations and surgeries on the real code against a brute-force verdict", simple("good.cpp"), ["well-formed = initialised or clipped by the library and confirmed by the independent validator"])
reg("C14", "exhaustive enumeration of vertex tuples, boxes, polygons and boundaries on the real code against an exact model", simple("faces.cpp"), [REF])
reg("C15", "exhaustive enumeration of all ordered lattice point tuples on the real code against exact determinants", simple("orient.cpp"), ["4D sign convention: the determinant of the edge vectors from the first point"])
reg("C16", "exhaustive bounded exploration of transform sequences on the real code, reference map in lockstep", simple("xform.cpp"), ["rotation sense: right-handed about the axis in 3D, first towards second axis in 2D and 4D"])
REF4 = "reference model: convex polytope given by its facets, vertices by enumerating all 4-subsets in long double; general position = every vertex at least 1e-6 of the size away from every other facet"
reg("C17", "exhaustive bounded exploration of 4D clip sequences on the real code, facet-enumeration model in lockstep", simple("clip4.cpp"), [REF4])
reg("C18", "exhaustive enumeration of 4D polytopes, grids and clamps on the real code, every cell compared with a slab-clipping model", simple("vox4.cpp"), [REF, REF4])
reg("C19", "exhaustive enumeration of simplices under all vertex orders and of boxes on the real code against a facet-enumeration model", simple("init4.cpp"), [REF4])

def deprecated(dim):
    def build(ctx):
        runs = []; src = os.path.join(ctx["repo"], "deprecated"); fl = ASAN if ctx["tier"] == "quick" else PLAIN
        for tag, df in (("plain", []), ("tree", ["-DUSE_TREE"])):
            objs, inc = ctx["build_lib"](ctx["bd"], tag, fl + df, srcdir=src)
            exe = harness(ctx, "dep.cpp", "explore-" + tag, objs, inc, ["-DDIM=%d" % dim] + df, [f for f in fl if not f.startswith("-O")] + ["-O1"])
            runs.append((tag, [exe]))
        return runs
    return build
DEPT = "exhaustive enumeration of plane lists, simplices and grids on the real code (both the flat and the tree build) against the signed-simplex model"
reg("C24", DEPT, deprecated(3), [REF, "box and simplex seeds, at most four planes per call (the interface's limit)"])
reg("C25", DEPT, deprecated(2), [REF, "convex seeds, at most four lines per call (the interface's limit)"])

def capacity(ctx):
    runs = []; fl = ASAN; caps = [8, 12, 16, 33, 48] if ctx["tier"] == "quick" else [8, 9, 10, 12, 14, 16, 20, 24, 33, 40, 48, 64]
    cmds = []
    for m, nd in [(c, 0) for c in caps + [512, 1024]] + [(c, 1) for c in (caps[1::2] if ctx["tier"] == "quick" else caps)]:
        tag = "m%d%s" % (m, "n" if nd else ""); objs, inc = ctx["build_lib"](ctx["bd"], tag, fl + (["-DNDEBUG"] if nd else []), maxverts=m)
        exe = os.path.join(ctx["bd"], "explore-" + tag)
        cmds.append(["g++", "-std=gnu++17", "-o", exe, os.path.join(ctx["H"], "cap.cpp")] + list(objs) + list(inc) + ["-I" + ctx["H"], "-O1", "-fsanitize=address"] + (["-DCAP24"] if m == caps[nd] else []) + ctx["CFLAGS"] + ["-lm"])
        runs.append(("max%d%s" % (m, "-NDEBUG" if nd else ""), [exe]))
    ctx["par"](cmds)
    return runs
reg("C20", "exhaustive exploration of initialise/clip/split/voxelize histories across the capacity limit on address-sanitized builds with small capacities, exact vertex counts as oracle", capacity, [REF, "failure is mandatory when the result itself exceeds the capacity, success when all intermediate vertices of the documented algorithm fit; between the two either is accepted if success is exact"])

def otherdims(ctx):
    """the N-dimensional sources of the working tree, built with RND_DIM replaced by other dimensions"""
    import re, shutil
    runs = []; fl = ASAN if ctx["tier"] == "quick" else PLAIN
    for nd in (3, 5, 6):
        src = os.path.join(ctx["bd"], "src%d" % nd); shutil.rmtree(src, ignore_errors=True); os.makedirs(src); found = 0
        for f in sorted(os.listdir(os.path.join(ctx["repo"], "src"))):
            if not f.endswith((".c", ".h")): continue
            t = open(os.path.join(ctx["repo"], "src", f)).read(); t, k = re.subn(r"(?m)^([ \t]*#[ \t]*define[ \t]+RND_DIM[ \t]+)\(?4\)?", r"\g<1>%d" % nd, t); found += k
            if f.endswith(".h") or f in ("rNd.c", "vNd.c"): open(os.path.join(src, f), "w").write(t)
        df = [] if found else ["-DRND_DIM=%d" % nd]
        objs, inc = ctx["build_lib"](ctx["bd"], "nd%d" % nd, fl + df, srcdir=src)
        exe = harness(ctx, "nd.cpp", "explore-%d" % nd, objs, inc, ["-DND=%d" % nd] + df, [f for f in fl if not f.startswith("-O")] + ["-O2"])
        runs.append(("dim%d" % nd, [exe]))
    return runs
reg("C26", "exhaustive bounded exploration of the N-dimensional code compiled for dimensions 3, 5 and 6 against a dimension-generic facet-enumeration and signed-simplex model", otherdims, ["reference model written for any dimension; general position = every vertex at least 1e-4 of the size away from every other facet"])

reg("C27", "exhaustive enumeration of shapes, cuts and boundary representations on the real code; the captured listing is parsed back and compared number by number with the object", simple("print.cpp"), ["the listing is judged by the numbers in it, in order; wording and spacing are free"])

OPS_SRC = ["r2d.c", "r3d.c", "rNd.c", "v2d.c", "v3d.c", "vNd.c"]
def variant(ctx, tag, cflags, maxverts=512, noshift=False, cc="gcc", shift2d=False, extra_link=(), legacy=False):
    """one shared object: library sources of the working tree plus the op table; returns (path, commands)"""
    objs, inc = ctx["build_lib"](ctx["bd"], tag, cflags + ["-fPIC"] + (["-DSHIFT_POLY"] if False else []), maxverts=maxverts, noshift=noshift, cc=cc, **(dict(srcdir=os.path.join(ctx["repo"], "deprecated")) if legacy else {}))
    so = os.path.join(ctx["bd"], tag + ".so")
    opf = [f for f in cflags if f.startswith("-D")]
    return so, [cc, "-shared", "-fPIC", "-o", so, os.path.join(ctx["H"], "ops_dep.c" if legacy else "ops.c")] + objs + inc + ["-I" + ctx["H"], "-O1", "-w", "-Wl,-z,now"] + opf + list(extra_link) + ["-lm"]

def with_variants(src, groups, defs=()):
    """one exploration per group of build variants"""
    def build(ctx):
      runs, cmds = [], []
      for label, specs in groups:
        names, paths = [], []
        for tag, kw in specs:
            so, cmd = variant(ctx, tag, **kw); names.append('"%s"' % tag); paths.append('"%s"' % so); cmds.append(cmd)
        exe = os.path.join(ctx["bd"], label); runs.append((label, [exe]))
        cmds.append(["g++", "-std=gnu++17", "-o", exe, os.path.join(ctx["H"], src), "-I" + ctx["H"], "-O1", "-rdynamic", "-DVARIANT_NAMES=" + ",".join(names), "-DVARIANT_PATHS=" + ",".join(paths)] + list(defs) + ctx["CFLAGS"] + ["-lm", "-ldl", "-lpthread"])
      ctx["par"](cmds)
      return runs
    return build
INITS = (("plain", ["-O2"]), ("zero", ["-O2", "-ftrivial-auto-var-init=zero"]), ("pattern", ["-O2", "-ftrivial-auto-var-init=pattern"]))
reg("C22", "explicit-state exploration of call histories over the library's hidden state, on the real code, with all garbage patterns in unused memory; results compared bit for bit",
    with_variants("hist.cpp", [("explore", [(t, dict(cflags=f)) for t, f in INITS]), ("legacy", [("legacy-" + t, dict(cflags=f, legacy=True)) for t, f in INITS]), ("legacy-tree", [("legacy-tree-" + t, dict(cflags=f + ["-DUSE_TREE"], legacy=True)) for t, f in INITS])]),
    ["hidden state is what the library keeps in its writable and thread-local segments; heap contents and stack residue are varied by fill patterns"])

def configs(tier):
    base = ("double,shift3d,O2", dict(cflags=["-O2"]), 1)
    L = [base]
    def add(n, cf, sh, **kw): L.append((n, dict(cflags=cf, **kw), sh))
    if tier == "quick":
        add("O0", ["-O0"], 1); add("O3-NDEBUG", ["-O3", "-DNDEBUG"], 1); add("clang-O2", ["-O2"], 1, cc="clang")
        add("cap128", ["-O2"], 1, maxverts=128); add("cap1024-noshift", ["-O2"], 0, maxverts=1024, noshift=True)
        add("shift2d", ["-O2", "-DSHIFT_POLY"], 3); add("single", ["-O2", "-DSINGLE_PRECISION"], 1)
        add("single-shift2d-NDEBUG", ["-O2", "-DSINGLE_PRECISION", "-DSHIFT_POLY", "-DNDEBUG"], 3)
        add("single-noshift-cap1024", ["-O1", "-DSINGLE_PRECISION"], 0, maxverts=1024, noshift=True)
    else:
        for prec in ("double", "single"):
            for sh, nm in ((0, "noshift"), (1, "shift3d"), (3, "shift")):
                for cap in (128, 512, 1024):
                    for nd in (0, 1):
                        for cc, o in (("gcc", "-O0"), ("gcc", "-O3"), ("clang", "-O2")):
                            add("%s-%s-cap%d%s-%s%s" % (prec, nm, cap, "-NDEBUG" if nd else "", cc, o), [o] + (["-DSINGLE_PRECISION"] if prec == "single" else []) + (["-DNDEBUG"] if nd else []) + (["-DSHIFT_POLY"] if sh == 3 else []), sh, maxverts=cap, noshift=(sh == 0), cc=cc)
    return L
def confbuild(ctx):
    names, paths, cmds, shifts = [], [], [], []
    for tag, kw, sh in configs(ctx["tier"]):
        so, cmd = variant(ctx, tag.replace(",", "_"), **kw); names.append('"%s"' % tag); paths.append('"%s"' % so); cmds.append(cmd); shifts.append(str(sh))
        if len(cmds) >= 12: ctx["par"](cmds); cmds = []
    exe = os.path.join(ctx["bd"], "explore")
    cmds.append(["g++", "-std=gnu++17", "-o", exe, os.path.join(ctx["H"], "conf.cpp"), "-I" + ctx["H"], "-O1", "-rdynamic", "-DVARIANT_NAMES=" + ",".join(names), "-DVARIANT_PATHS=" + ",".join(paths), "-DVARIANT_SHIFT=" + ",".join(shifts)] + ctx["CFLAGS"] + ["-lm", "-ldl", "-lpthread"])
    # the reduction path each dimension does not use by default (C06 and C07 decide the default one), over the whole shape families
    o2, i2 = ctx["build_lib"](ctx["bd"], "m2shift", PLAIN + ["-DSHIFT_POLY"]); o3, i3 = ctx["build_lib"](ctx["bd"], "m3plain", PLAIN, noshift=True)
    runs = [("explore", [exe])]
    for lab, d, o, i, fl in (("moments2-shift", "2", o2, i2, ["-DSHIFT_POLY", "-DABOUT_ORIGIN=0"]), ("moments3-noshift", "3", o3, i3, ["-DABOUT_ORIGIN=1"])):
        e = os.path.join(ctx["bd"], lab); runs.append((lab, [e]))
        cmds.append(["g++", "-std=gnu++17", "-o", e, os.path.join(ctx["H"], "moments.cpp")] + o + i + ["-I" + ctx["H"], "-O1", "-DDIM=" + d, '-DAS_ID="C23"'] + fl + ctx["CFLAGS"] + ["-lm", "-ldl", "-lpthread"])
    # capacities other than the default, with shapes that need them
    for cap, fl in ((700, ["-O2"]), (1100, ["-O3", "-DNDEBUG"])):
        lab = "capacity%d" % cap; o, i = ctx["build_lib"](ctx["bd"], lab, fl + ["-ftrivial-auto-var-init=pattern"], maxverts=cap); e = os.path.join(ctx["bd"], lab); runs.append((lab, [e]))
        cmds.append(["g++", "-std=gnu++17", "-o", e, os.path.join(ctx["H"], "cap.cpp")] + o + i + ["-I" + ctx["H"], "-O1", "-DFITS_ONLY"] + ctx["CFLAGS"] + ["-lm", "-ldl", "-lpthread"])
    ctx["par"](cmds)
    return runs
reg("C23", "exhaustive enumeration of build configurations and calls on the real code, all configurations compared with one another", confbuild,
    ["tolerances: 40 (double) and 60 (single) units of round-off at the scale of the quantity; vertex numbering may differ between configurations"])

def schedbuild(ctx):
    wrap = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=pthread_mutex_lock"]; cmds, runs = [], []
    for label, legacy, df in (("explore", False, []), ("legacy", True, []), ("legacy-tree", True, ["-DUSE_TREE"])):
        so, cmd = variant(ctx, "inst-" + label, ["-O1", "-fsanitize=thread"] + df, cc="clang", extra_link=wrap, legacy=legacy); cmd[0] = "gcc"
        exe = os.path.join(ctx["bd"], label); runs.append((label, [exe]))
        cmds += [cmd, ["g++", "-std=gnu++17", "-o", exe, os.path.join(ctx["H"], "sched.cpp"), "-I" + ctx["H"], "-O1", "-rdynamic", '-DVARIANT_NAMES="instrumented"', '-DVARIANT_PATHS="%s"' % so] + ctx["CFLAGS"] + ["-lm", "-ldl", "-lpthread"]]
    ctx["par"](cmds)
    return runs
reg("C21", "stateless model checking of the compiled library under a controlled scheduler: interleavings at memory-access granularity with partial-order reduction, results compared bit for bit with isolated runs", schedbuild,
    ["sequentially consistent interleavings; accesses inside libc are atomic steps", "thread-local storage is switched with the coroutine"])
