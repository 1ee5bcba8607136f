"""Writes the TLC configurations of MC_Mesh."""
import os
S = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
INV = dict(C11="InvCheck InvTouch", C12="InvMerge InvLinks", C13="InvLaws", C14="InvLaws InvShift", C15="InvExtrude",
           C17="InvBox InvCheck", C19="InvTurn InvTouch", C20="InvBook InvLinks InvTouch")
T = """SPECIFICATION Spec
VIEW View
CONSTANTS
  Regs = {{"a", "b"}}
  MaxOps = {ops}
  MaxEl = 8
  Sizes <- {sizes}
  Walls <- {walls}
INVARIANTS {inv}
CHECK_DEADLOCK FALSE
"""
for k, v in INV.items():
    for tier in ("quick", "deep"):
        q = tier == "quick"
        ops = 0 if k == "C17" else (1 if q else 2 if k in ("C11", "C19", "C20") else 1)
        open(f"{S}/MC_Mesh_{k}_{tier}.cfg", "w").write(T.format(
            ops=ops, sizes="QSizes" if q and k != "C17" else "MCSizes", walls="QWalls" if q else ("GenWalls" if k == "C17" else "MCWalls"), inv=v))
open(f"{S}/GEN_Mesh.cfg", "w").write(T.format(ops=6, sizes="MCSizes", walls="GenWalls", inv="Emit").replace("VIEW View\n", ""))
