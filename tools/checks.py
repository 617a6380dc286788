"""The checks: for each property its design models, scenario generators (module, family, quick count, thorough count) and trace specification."""


def J(gen, family, quick, deep, trace, **kw):
    return dict(gen=(gen, family, quick, deep), trace=trace, **kw)


CHECKS = {}
CHECKS["C01"] = dict(mc=[("MC_ExactReal", "MC_ExactReal.cfg"), ("MC_SparseStore", "MC_SparseStore.cfg")],
                     jobs=[J("Gen_SparseStore", "patterns", 0, 0, "Trace_SparseStore"), J("Gen_SparseStore", "history", 200, 3000, "Trace_SparseStore"), J("Gen_SparseStore", "dense", 57, 900, "Trace_SparseStore")])
CHECKS["C02"] = dict(mc=[("MC_SparseStore", "MC_SparseStore.cfg")],
                     jobs=[J("Gen_SparseStore", "patterns", 0, 0, "Trace_SparseStore"), J("Gen_SparseStore", "history", 150, 2000, "Trace_SparseStore"), J("Gen_SparseStore", "dense", 57, 900, "Trace_SparseStore"),
                           J("Gen_SparseStore", "kernels", 57, 600, "Trace_SparseStore")])
CHECKS["C03"] = dict(mc=[("MC_LinSystem", "MC_LinSystem.cfg")],
                     jobs=[J("Gen_LinSystem", "orders", 0, 0, "Trace_LinSystem"), J("Gen_LinSystem", "fix", 400, 3000, "Trace_LinSystem")])
CHECKS["C04"] = dict(mc=[("MC_Cg", "MC_Cg.cfg")], jobs=[J("Gen_LinSystem", "solve", 300, 2000, "Trace_LinSystem")])
CHECKS["C05"] = dict(mc=[("MC_Material", "MC_Material.cfg")],
                     jobs=[J("Gen_LinSystem", "expr", 400, 4000, "Trace_LinSystem"), J("Gen_LinSystem", "matrix", 240, 3000, "Trace_LinSystem")])
CHECKS["C06"] = dict(mc=[("MC_Material", "MC_Material.cfg")], jobs=[J("Gen_LinSystem", "curves", 400, 4000, "Trace_LinSystem")])
CHECKS["C10"] = dict(mc=[("MC_ExactReal", "MC_ExactReal.cfg"), ("MC_Plane", "MC_Plane.cfg")],
                     jobs=[J("Gen_Geometry", "poly", 400, 2500, "Trace_Geometry"), J("Gen_Geometry", "lines", 150, 1000, "Trace_Geometry")])
CHECKS["C11"] = dict(mc=[("MC_Plane", "MC_Plane.cfg")], jobs=[J("Gen_Geometry", "circles", 400, 2500, "Trace_Geometry")])
_D = [("MC_Drawing", "MC_Drawing.cfg")]
_DF = [("MC_Drawing", "MC_DrawingFull.cfg")]
CHECKS["C07"] = dict(mc=_D, mc_thorough=_DF, jobs=[J("Gen_Drawing", "build", 120, 2500, "Trace_Drawing"), J("Gen_Drawing", "pairs", 0, 0, "Trace_Drawing")])
CHECKS["C08"] = dict(mc=_D, mc_thorough=_DF, jobs=[J("Gen_Drawing", "pairs", 0, 0, "Trace_Drawing"), J("Gen_Drawing", "pairs", 1, 1, "Trace_Drawing"), J("Gen_Drawing", "build", 120, 2500, "Trace_Drawing")])
CHECKS["C09"] = dict(mc=_D, mc_thorough=_DF, jobs=[J("Gen_Drawing", "marks", 240, 2500, "Trace_Drawing")])
CHECKS["C12"] = dict(mc=_D, mc_thorough=_DF, jobs=[J("Gen_Drawing", "sharp", 160, 1500, "Trace_Drawing"), J("Gen_Drawing", "refined", 60, 700, "Trace_Drawing"), J("Gen_Drawing", "magnets", 100, 1500, "Trace_Drawing")])
_M = [("MC_Meshing", "MC_Meshing.cfg")]
_MF = [("MC_Meshing", "MC_MeshingFull.cfg")]
CHECKS["C13"] = dict(mc=_M, mc_thorough=_MF, jobs=[J("Gen_Meshing", "mesh", 160, 1500, "Trace_Meshing")])
CHECKS["C14"] = dict(mc=_M, mc_thorough=_MF, jobs=[J("Gen_Meshing", "mesh", 160, 1500, "Trace_Meshing")])
CHECKS["C15"] = dict(mc=_M, mc_thorough=_MF, jobs=[J("Gen_Meshing", "field", 96, 1500, "Trace_Meshing")])
CHECKS["C16"] = dict(mc=_M, mc_thorough=_MF, jobs=[J("Gen_Meshing", "section", 96, 1500, "Trace_Meshing")])
_C = [("MC_Conduction", "MC_Conduction.cfg")]
_CF = [("MC_Conduction", "MC_ConductionFull.cfg")]
CHECKS["C17"] = dict(mc=_C, mc_thorough=_CF, jobs=[J("Gen_Conduction", "assemble", 100, 1500, "Trace_Conduction")])
CHECKS["C18"] = dict(mc=_C, mc_thorough=_CF, jobs=[J("Gen_Conduction", "solve", 100, 1500, "Trace_Conduction")])
CHECKS["C19"] = dict(mc=_C, mc_thorough=_CF, jobs=[J("Gen_Conduction", "volt", 160, 2500, "Trace_Conduction")])
CHECKS["C20"] = dict(mc=_C, mc_thorough=_CF, jobs=[J("Gen_Conduction", "layers", 200, 3000, "Trace_Conduction")])
CHECKS["C21"] = dict(mc=_C, mc_thorough=_CF, jobs=[J("Gen_Conduction", "power", 160, 2500, "Trace_Conduction")])
_G = [("MC_Magnetostatic", "MC_Magnetostatic.cfg")]
_GF = [("MC_Magnetostatic", "MC_MagnetostaticFull.cfg")]
CHECKS["C22"] = dict(mc=_G, mc_thorough=_GF, jobs=[J("Gen_Magnetostatic", "system", 120, 800, "Trace_Magnetostatic")])
CHECKS["C23"] = dict(mc=_G, mc_thorough=_GF, jobs=[J("Gen_Magnetostatic", "magnet", 160, 800, "Trace_Magnetostatic")])
CHECKS["C24"] = dict(mc=_G, mc_thorough=_GF, jobs=[J("Gen_Magnetostatic", "open", 72, 500, "Trace_Magnetostatic")])
CHECKS["C25"] = dict(mc=_G, mc_thorough=_GF, jobs=[J("Gen_Magnetostatic", "potential", 90, 700, "Trace_Magnetostatic")])
CHECKS["C26"] = dict(mc=_G, mc_thorough=_GF, jobs=[J("Gen_Magnetostatic", "force", 26, 300, "Trace_Magnetostatic")])
CHECKS["C27"] = dict(mc=[("MC_Sessions", "MC_Sessions.cfg")], mc_thorough=[("MC_Sessions", "MC_SessionsFull.cfg")], jobs=[J("Gen_Sessions", "sessions", 80, 900, "Trace_Sessions")])
CHECKS["C28"] = dict(mc=[("MC_Binding", "MC_Binding.cfg")], mc_thorough=[("MC_Binding", "MC_BindingFull.cfg")], jobs=[J("Gen_Binding", "binding", 200, 2000, "Trace_Binding", exec="run_binding")])
