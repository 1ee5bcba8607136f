"""One function per property: what its check runs."""
from . import circles, core, datasets, fields, grading, meshes, meshfiles, refine, simson, vtk


def C01(ctx):
    core.model_check(ctx, "MC_Field.tla", "MC_Field.cfg")
    pal = fields.Palette(ctx.rng, extreme=True)
    h = core.generate(ctx, "MC_Field.tla", "GEN_Field.cfg", ctx.pick(60, 600), 12, ctx.seed)
    tr = fields.roundtrip_traces(ctx, pal, h, ctx.pick(80, 1500))
    core.validate(ctx, "Trace_Field", tr, pal.tab())
    core.validate(ctx, "Trace_Field", fields.big_traces(ctx, pal, 66000), pal.tab(), label="big", heap="6g")


def C02(ctx):
    pal = fields.Palette(ctx.rng, extreme=True)
    core.validate(ctx, "Trace_Field", fields.decode_traces(ctx, pal, ctx.pick(150, 2000)), pal.tab())


def C03(ctx):
    pal = fields.Palette(ctx.rng, extreme=True)
    core.validate(ctx, "Trace_Field", fields.layout_traces(ctx, pal, ctx.pick(120, 1500)), pal.tab())


def C04(ctx):
    pal = fields.Palette(ctx.rng, extreme=True)
    core.validate(ctx, "Trace_Field", fields.skip_traces(ctx, pal, ctx.pick(120, 2000)), pal.tab())


def C05(ctx):
    pal = fields.Palette(ctx.rng)
    core.validate(ctx, "Trace_Field", fields.damage_traces(ctx, pal, ctx.pick(16, 60)), pal.tab())
    mp = meshfiles.Palette(ctx.rng)
    core.validate(ctx, "Trace_MeshFile", meshfiles.damage_traces(ctx, mp, ctx.pick(8, 60)), mp.tab())
    core.validate(ctx, "Trace_Simson", simson.traces(ctx, ctx.pick(30, 300), "cut"))


def C06(ctx):
    core.model_check(ctx, "MC_MeshFile.tla", "MC_MeshFile_deep.cfg", workers=8)
    pal = meshfiles.Palette(ctx.rng)
    h = core.generate(ctx, "MC_MeshFile.tla", "GEN_MeshFile.cfg", ctx.pick(60, 1500), 11, ctx.seed, timeout=600)
    tr = meshfiles.generated_traces(ctx, pal, h[:ctx.pick(60, 1500)])
    core.validate(ctx, "Trace_MeshFile", tr + meshfiles.re2_traces(ctx, pal, ctx.pick(60, 1000)), pal.tab())
    n = ctx.pick(66000, 140000) + ctx.rng.randint(0, 9)
    pal = meshfiles.Palette(ctx.rng, nint=n, texts=False)
    tr = meshfiles.re2_window_traces(ctx, pal, [(n, 2, "foreign"), (n - 1, ctx.pick(2, 3), "own")])
    core.validate(ctx, "Trace_MeshFile", tr, pal.tab(), label="window", heap="4g")


def C07(ctx):
    core.model_check(ctx, "MC_MeshFile.tla", ctx.pick("MC_MeshFile_small.cfg", "MC_MeshFile.cfg"), workers=8)
    pal = meshfiles.Palette(ctx.rng)
    h = core.generate(ctx, "MC_MeshFile.tla", "GEN_MeshFile.cfg", ctx.pick(60, 1500), 11, ctx.seed + 1000, timeout=600)
    tr = meshfiles.generated_traces(ctx, pal, h[:ctx.pick(60, 1500)])
    core.validate(ctx, "Trace_MeshFile", tr + meshfiles.rea_traces(ctx, pal, ctx.pick(48, 600)), pal.tab())
    pal = meshfiles.Palette(ctx.rng, nint=1100)
    core.validate(ctx, "Trace_MeshFile", meshfiles.rea_traces(ctx, pal, 0, ctx.pick((999, 1000), (998, 999, 1000, 1001, 1002))), pal.tab())
    n = 1000000 + ctx.rng.choice([0, 1, 2])
    plan = [(100001, 1, "foreign"), (n, 1, "own")]
    if ctx.thorough:
        plan += [(n, 1, "foreign"), (100003, 2, "own"), (999999, 1, "foreign"), (99999, 1, "own"), (100000, 2, "foreign")]
    core.validate(ctx, "Trace_MeshFile", meshfiles.window_traces(ctx, pal, plan), pal.tab(), label="window")


def C08(ctx):
    pal = fields.Palette(ctx.rng, extreme=True)
    core.validate(ctx, "Trace_Field", fields.failsafe_traces(ctx, pal, ctx.pick(40, 400)), pal.tab())
    mp = meshfiles.Palette(ctx.rng)
    core.validate(ctx, "Trace_MeshFile", meshfiles.failsafe_traces(ctx, mp, ctx.pick(30, 300)), mp.tab())


def C09(ctx):
    pal = meshfiles.Palette(ctx.rng)
    core.validate(ctx, "Trace_MeshFile", meshfiles.ma2_traces(ctx, pal, ctx.pick(100, 3000)), pal.tab())


def mesh(ctx, traces):
    core.validate(ctx, "Trace_Mesh", traces)


def laws(ctx, focus=None, n=(0, 0)):
    """The laws of this property on the exhaustive model; then histories of the model in the real code."""
    core.model_check(ctx, "MC_Mesh.tla", f"MC_Mesh_{ctx.pid}_{ctx.pick('quick', 'deep')}.cfg", workers=8)
    if n[0]:
        h = core.generate(ctx, "MC_Mesh.tla", "GEN_Mesh.cfg", ctx.pick(max(40, 2 * n[0]), n[1] * 2), 8, ctx.seed, timeout=600)
        mesh(ctx, meshes.generated_traces(ctx, h, ctx.pick(*n), focus))


def C10(ctx):
    core.model_check(ctx, "MC_Simson.tla", "MC_Simson.cfg")
    core.validate(ctx, "Trace_Simson", simson.traces(ctx, ctx.pick(200, 3000)))


def C11(ctx):
    laws(ctx)
    mesh(ctx, meshes.large_traces(ctx, "check") + meshes.default_traces(ctx, "check", 24) + meshes.check_traces(ctx, ctx.pick(150, 3000)))


def C12(ctx):
    laws(ctx, ["merge"], (30, 400))
    mesh(ctx, meshes.large_traces(ctx, "merge") + meshes.default_traces(ctx, "merge", 24) + meshes.merge_traces(ctx, ctx.pick(150, 3000)))


def C13(ctx):
    laws(ctx, ["genint", "delint"], (20, 400))
    mesh(ctx, meshes.large_traces(ctx, "internal") + meshes.default_traces(ctx, "genint", 24) + meshes.internal_traces(ctx, ctx.pick(150, 3000)))


def C14(ctx):
    laws(ctx, ["keep"], (30, 400))
    mesh(ctx, meshes.large_traces(ctx, "keep") + meshes.subset_traces(ctx, ctx.pick(200, 4000)))


def C15(ctx):
    laws(ctx, ["extrude"], (20, 400))
    mesh(ctx, meshes.large_traces(ctx, "extrude") + meshes.extrude_traces(ctx, ctx.pick(150, 3000)))


def C16(ctx):
    core.model_check(ctx, "MC_Refine.tla", ctx.pick("MC_Refine.cfg", "MC_Refine_deep.cfg"))
    core.validate(ctx, "Trace_Refine", refine.refine_traces(ctx, ctx.pick(200, 4000)))


def C17(ctx):
    laws(ctx)
    mesh(ctx, meshes.large_traces(ctx, "box") + meshes.box_traces(ctx, ctx.pick(100, 2000)))


def C18(ctx):
    core.model_check(ctx, "MC_Circle.tla", ctx.pick("MC_Circle.cfg", "MC_Circle_deep.cfg"), workers=8)
    core.validate(ctx, "Trace_Circle", circles.circle_traces(ctx, ctx.pick(60, 1000)))


def C19(ctx):
    laws(ctx, ["map", "rotate"], (20, 400))
    mesh(ctx, meshes.large_traces(ctx, "map") + meshes.map_traces(ctx, ctx.pick(200, 4000)))


def C20(ctx):
    laws(ctx, None, (60, 1500))
    mesh(ctx, meshes.history_traces(ctx, ctx.pick(150, 3000), 10))


def C21(ctx):
    h = core.generate(ctx, "MC_Mesh.tla", "GEN_Mesh.cfg", ctx.pick(40, 1000), 8, ctx.seed, timeout=600)
    mesh(ctx, meshes.generated_traces(ctx, h, ctx.pick(20, 500)))
    mesh(ctx, meshes.history_traces(ctx, ctx.pick(150, 3000), 10, meshes.OPS + ["poke"] * 6 + ["copy"]))


def C22(ctx):
    mesh(ctx, meshes.geometry_traces(ctx, ctx.pick(100, 2000)))
    mesh(ctx, meshes.edge_traces(ctx, ctx.pick(120, 2000)))
    pal = fields.Palette(ctx.rng)
    core.validate(ctx, "Trace_Field", fields.query_traces(ctx, pal, ctx.pick(60, 1000)), pal.tab())


def C23(ctx):
    core.model_check(ctx, "MC_Dataset.tla", "MC_Dataset.cfg")
    if ctx.thorough:
        core.model_check(ctx, "MC_Dataset.tla", "MC_Dataset_deep.cfg", workers=8, timeout=1500)
    tr, pal = datasets.open_traces(ctx, ctx.pick(120, 1500))
    core.validate(ctx, "Trace_Dataset", tr, pal.tab())


def C24(ctx):
    core.model_check(ctx, "MC_Names.tla", "MC_Names.cfg")
    tr, pal = datasets.name_traces(ctx, ctx.pick(30, 300))
    core.validate(ctx, "Trace_Dataset", tr, pal.tab(), label="names")
    tr, pal = datasets.many_traces(ctx, ctx.pick(60, 600))
    core.validate(ctx, "Trace_Dataset", tr, pal.tab())


def C25(ctx):
    core.model_check(ctx, "MC_Vtk.tla", "MC_Vtk_deep.cfg" if ctx.thorough else "MC_Vtk.cfg")
    tr, pal = vtk.traces(ctx, ctx.pick(100, 1500))
    core.validate(ctx, "Trace_Vtk", tr, pal.tab())


def C26(ctx):
    core.model_check(ctx, "MC_Decimal.tla", "MC_Decimal.cfg")
    core.validate(ctx, "Trace_Grading", grading.traces(ctx, ctx.pick(60, 1000)))
