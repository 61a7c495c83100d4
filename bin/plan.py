"""Which models, drivers and trace specifications decide which property."""
SAN = ["-O0", "-g1", "-ftrivial-auto-var-init=pattern", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS"]
DRIVERS = {
    "sparse": dict(units=["sparse.cpp"], flags=SAN),
    "dense": dict(units=["dense.cpp"], flags=SAN),
    "vec": dict(units=["vec.cpp"], flags=SAN),
    "lu": dict(units=["lu.cpp"], flags=SAN),
    "solver": dict(units=["solver.cpp"], flags=SAN),
    "luck": dict(units=["lu.cpp"], flags=SAN + ["-DNS_ALLOW_CHECKS"]),
    "solverck": dict(units=["solver.cpp"], flags=SAN + ["-DNS_ALLOW_CHECKS"]),
    "order": dict(units=["order.cpp", "order2.cpp"], flags=SAN),
    "mesh": dict(units=["mesh.cpp"], flags=SAN),
    "geom": dict(units=["geom.cpp"], flags=SAN),
    "handles": dict(units=["handles.cpp"], flags=SAN),
    "loader": dict(units=["loader.cpp"], flags=SAN),
    "obj": dict(units=["obj.cpp", "repo:src/objloader/loader/MeshObjLoader.cpp"], flags=SAN, repo_inc=["src/objloader"]),
    "io": dict(units=["io.cpp"], flags=SAN),
    "mbig": dict(units=["mbig.cpp", "repo:src/objloader/loader/MeshObjLoader.cpp"], flags=SAN, repo_inc=["src/objloader"]),
    "sbig": dict(units=["sbig.cpp"], flags=SAN),
    "itbig": dict(units=["itbig.cpp"], flags=SAN),
    "fbig": dict(units=["fbig.cpp"], flags=SAN),
    "obig": dict(units=["obig.cpp"], flags=SAN),
    "dbig": dict(units=["dbig.cpp"], flags=SAN),
    "alg5": dict(units=["alg.cpp"], flags=SAN + ["-DPART_C05"]),
    "alg6": dict(units=["alg.cpp"], flags=SAN + ["-DPART_C06"]),
    "fem": dict(units=["fem.cpp", "repo:src/objloader/loader/MeshObjLoader.cpp"], flags=SAN, repo_inc=["src/objloader"]),
    "fd": dict(units=["fd.cpp"], flags=SAN),
    "alg29": dict(units=["alg.cpp"], flags=SAN + ["-DPART_C29"]),
    "alg8": dict(units=["alg.cpp"], flags=SAN + ["-DPART_C08"]),
}
SPARSE_CRS = dict(name="SparseCRS", module="SparseCRS", cfg="SparseCRS.cfg", thorough={"Vals": "{1, 2}"})
SPARSE_GEN = dict(name="SparseGen", module="SparseCRS", cfg="SparseGen.cfg", emit="cmds.txt")
LU_MODEL = dict(name="LUModel", module="LUModel", cfg="LUModel.cfg", thorough={"n": "3", "Vals": "{0, 1, 3}", "Off": "1"})
LU_GEN = dict(name="LUGen", module="LUModel", cfg="LUGen.cfg", emit="cmds.txt", thorough={"n": "3", "Vals": "{0, 1, 3}", "Off": "1"})
ILU_MODEL = dict(name="IluModel", module="IluModel", cfg="IluModel.cfg", thorough={"Vals": "{0, 1, 2, 3}"})
CM_MODEL = dict(name="CMModel", module="CMModel", cfg="CMModel.cfg")
CM_GEN = dict(name="CMGen", module="CMModel", cfg="CMGen.cfg", emit="cmds.txt")
NB_MODEL = dict(name="NbModel", module="NbModel", cfg="NbModel.cfg", thorough={"ne": "4"})
NB_GEN = dict(name="NbGen", module="NbModel", cfg="NbGen.cfg", emit="cmds.txt")
GEOM_MODEL = dict(name="GeomModel", module="GeomModel", cfg="GeomModel.cfg", thorough={"Steps": "2", "Side": "3"})
HANDLE_MODEL = dict(name="HandleModel", module="HandleModel", cfg="HandleModel.cfg", thorough={"MaxT": "3"})
HANDLE_GEN = dict(name="HandleGen", module="HandleModel", cfg="HandleGen.cfg", emit="cmds.txt")
LOAD_MODEL = dict(name="LoadModel", module="LoadModel", cfg="LoadModel.cfg", consts={"MaxDamage": "2"})
LOAD_GEN = dict(name="LoadGen", module="LoadModel", cfg="LoadGen.cfg", emit="cmds.txt", thorough={"MaxDamage": "2"})
OBJ_MODEL = dict(name="ObjModel", module="ObjModel", cfg="ObjModel.cfg", thorough={"MaxLen": "5"})
OBJ_GEN = dict(name="ObjGen", module="ObjModel", cfg="ObjGen.cfg", emit="cmds.txt", thorough={"MaxLen": "4"})
TEXT_MODEL = [dict(name="TextModel" + c, module="TextModel", cfg="TextModel.cfg", consts={"Cplx": c}) for c in ("TRUE", "FALSE")]
STAT_MODEL = dict(name="StatModel", module="StatModel", cfg="StatModel.cfg", thorough={"n": "3", "Off": "{1, 2}", "Diag": "{1, 4}", "Rhs": "{1}", "Ws": "{3}", "Eps2": "{0, 8}", "Iters": "2"})
CG_MODEL = dict(name="CgModel", module="CgModel", cfg="CgModel.cfg", thorough={"n": "3", "Diag": "{4, 5}", "Off": "{1, 2}", "Rhs": "{2, 3}", "Start": "{2}", "Pre": "{2}"})
GRID_MODEL = dict(name="GridModel", module="GridModel", cfg="GridModel.cfg", thorough={"MaxN": "9"})
DOF_MODEL = [dict(name="DofModel" + o, module="DofModel", cfg="DofModel.cfg", consts={"Order": o}, thorough={"ne": "4"}) for o in ("1", "2")]
FEM_MODEL = [dict(name="FemModel1", module="FemModel", cfg="FemModel.cfg", consts={"Order": "1", "MaxT": "3"}), dict(name="FemModel2", module="FemModel", cfg="FemModel.cfg", consts={"Order": "2", "MaxT": "2"}, thorough={"MaxT": "3"})]
FD_MODEL = dict(name="FdModel", module="FdModel", cfg="FdModel.cfg", thorough={"MaxX": "5", "MaxY": "5"})
VALID_MODEL = dict(name="ValidModel", module="ValidModel", cfg="ValidModel.cfg", thorough={"Damages": "2", "ne": "2"})
PLAN = {
    "C01": dict(models=[SPARSE_CRS, SPARSE_GEN], runs=[dict(driver="sparse", mode="C01", trace="SparseTrace", **{"in": "cmds.txt"}), dict(driver="sbig", mode="C01", trace="SparseBig")]),
    "C02": dict(models=[SPARSE_CRS, SPARSE_GEN], runs=[dict(driver="sparse", mode="C02", trace="SparseTrace", **{"in": "cmds.txt"}), dict(driver="sbig", mode="C02", trace="SparseBig")]),
    "C03": dict(models=[SPARSE_CRS], runs=[dict(driver="sparse", mode="C03", trace="SparseTrace"), dict(driver="sbig", mode="C03", trace="SparseBig")]),
    "C04": dict(runs=[dict(driver="dense", mode="C04", trace="DenseTrace"), dict(driver="dbig", mode="C04", trace="DenseBig")]),
    "C05": dict(runs=[dict(driver="alg5", mode="C05", trace="AlgTrace"), dict(driver="sbig", mode="C05", trace="SparseBig"), dict(driver="dbig", mode="C05", trace="DenseBig")]),
    "C06": dict(runs=[dict(driver="alg6", mode="C06", trace="AlgTrace"), dict(driver="dbig", mode="C06", trace="DenseBig")]),
    "C08": dict(runs=[dict(driver="alg8", mode="C08", trace="AlgTrace"), dict(driver="dbig", mode="C08", trace="DenseBig")]),
    "C09": dict(models=[LU_MODEL, LU_GEN], runs=[dict(driver="lu", mode="C09", trace="LuTrace", **{"in": "cmds.txt"}), dict(driver="fbig", mode="C09", trace="FactBig")]),
    "C10": dict(models=[LU_MODEL], runs=[dict(driver="lu", mode="C10", trace="LuTrace"), dict(driver="fbig", mode="C10", trace="FactBig")]),
    "C11": dict(runs=[dict(driver="lu", mode="C11", trace="LuTrace"), dict(driver="luck", mode="C11", trace="LuTrace"), dict(driver="fbig", mode="C11", trace="FactBig")]),
    "C12": dict(models=[ILU_MODEL], runs=[dict(driver="lu", mode="C12", trace="LuTrace"), dict(driver="fbig", mode="C12", trace="FactBig")]),
    "C13": dict(models=[STAT_MODEL], runs=[dict(driver="solver", mode="C13", trace="SolverTrace"), dict(driver="itbig", mode="C13", trace="IterBig")]),
    "C14": dict(models=[CG_MODEL], runs=[dict(driver="solver", mode="C14", trace="SolverTrace"), dict(driver="solverck", mode="C14", trace="SolverTrace"), dict(driver="itbig", mode="C14", trace="IterBig")]),
    "C15": dict(models=[CM_MODEL, CM_GEN], runs=[dict(driver="order", mode="C15", trace="OrderTrace", **{"in": "cmds.txt"}), dict(driver="obig", mode="C15", trace="OrderBig")]),
    "C16": dict(models=[NB_MODEL, NB_GEN], runs=[dict(driver="mesh", mode="C16", trace="MeshTrace", **{"in": "cmds.txt"}), dict(driver="mbig", mode="C16", trace="MeshBig")]),
    "C18": dict(models=[VALID_MODEL], runs=[dict(driver="mesh", mode="C18", trace="MeshTrace"), dict(driver="mbig", mode="C18", trace="MeshBig")]),
    "C19": dict(models=[GRID_MODEL], runs=[dict(driver="mesh", mode="C19", trace="MeshTrace"), dict(driver="mbig", mode="C19", trace="MeshBig")]),
    "C17": dict(models=[HANDLE_MODEL, HANDLE_GEN], runs=[dict(driver="handles", mode="C17", trace="HandleTrace", **{"in": "cmds.txt"})]),
    "C20": dict(models=[GEOM_MODEL], runs=[dict(driver="geom", mode="C20", trace="GeomTrace")]),
    "C21": dict(models=[GEOM_MODEL], runs=[dict(driver="geom", mode="C21", trace="GeomTrace")]),
    "C23": dict(models=[GEOM_MODEL], runs=[dict(driver="geom", mode="C23", trace="GeomTrace")]),
    "C28": dict(models=[GEOM_MODEL], runs=[dict(driver="geom", mode="C28", trace="GeomTrace")]),
    "C24": dict(models=[LOAD_MODEL, LOAD_GEN], runs=[dict(driver="loader", mode="C24", trace="IoTrace", **{"in": "cmds.txt"}), dict(driver="mbig", mode="C24", trace="MeshBig")]),
    "C25": dict(models=[OBJ_MODEL, OBJ_GEN], runs=[dict(driver="obj", mode="C25", trace="IoTrace", **{"in": "cmds.txt"}), dict(driver="mbig", mode="C25", trace="MeshBig")]),
    "C26": dict(runs=[dict(driver="io", mode="C26", trace="IoTrace"), dict(driver="mbig", mode="C26", trace="MeshBig")]),
    "C27": dict(models=TEXT_MODEL, runs=[dict(driver="io", mode="C27", trace="IoTrace")]),
    "C22": dict(models=DOF_MODEL, runs=[dict(driver="mesh", mode="C22", trace="MeshTrace"), dict(driver="mbig", mode="C22", trace="MeshBig")]),
    "C29": dict(runs=[dict(driver="alg29", mode="C29", trace="AlgTrace"), dict(driver="dbig", mode="C29", trace="DenseBig")]),
    "C30": dict(models=FEM_MODEL, runs=[dict(driver="fem", mode="C30", trace="FemTrace")]),
    "C31": dict(models=[FD_MODEL], runs=[dict(driver="fd", mode="C31", trace="FdTrace")]),
    "C07": dict(runs=[dict(driver="vec", mode="C07", trace="VecTrace"), dict(driver="dbig", mode="C07", trace="DenseBig")]),
}
NOTES = {
    "*": "Every recorded call of the real code is checked by TLC against the specification; the code-shaped models are "
         "checked exhaustively in small constants. Trusted: TLC, the logging driver, the projection of floating-point "
         "results to nearby small rationals. Histories beyond the generated and seeded ones are not covered.",
}
