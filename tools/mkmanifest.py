"""Writes MANIFEST.json."""
import json
import os
import sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = "model-based verification: TLA+ specification (%s) checked with TLC; traces recorded from the real code are validated against it%s"
MODULES = {
    **{p: ("spec/IrrepRun.tla over Crystal, Bloch, Levels", "") for p in ("C01", "C02", "C03", "C04", "C06", "C07", "C08", "C09", "C10", "C11", "C14")},
    **{p: ("spec/IrrepRun.tla over Crystal, Bloch, Levels; spec/Outputs.tla for what is printed", "") for p in ("C12", "C13")},
    "C05": ("spec/TableCheck.tla", "; every table file is one recorded trace"),
    "C15": ("spec/TextModel.tla, spec/TextRun.tla over TextFiles", "; TLC explores all spellings and accidents of the file formats and the scenarios it emits are replayed into the real parsers"),
    "C16": ("spec/InputModel.tla, spec/InputRun.tla over Inputs", "; TLC explores the requests that deviate from valid ones and the scenarios it emits are put to the real program"),
    "C19": ("spec/Separation.tla over Crystal", ""),
    "C20": ("spec/Wilson.tla", "; overlaps, determinants and the products of unitary factors are computed by the specification from the coefficients"),
    "C21": ("spec/UnfoldModel.tla, spec/UnfoldRun.tla over Unfolding", "; TLC explores supercells, proves on each that every plane wave belongs to one folding k point, and the supercells it emits are replayed"),
    "C22": ("spec/PathPlot.tla over Levels", "; the traces hold the coordinates returned and the files written"),
    "C23": ("spec/CliModel.tla, spec/ListModel.tla, spec/CliRun.tla over Cli", "; TLC explores the placements of options on the command line and in a configuration file and lists of numbers, and the ones it emits are run by the real command next to the library call they mean"),
    "C24": ("spec/Matrices.tla over Crystal", "; the matrices are computed by the specification from the coefficients of the states"),
    "C25": ("spec/HistoryModel.tla, spec/HistoryRun.tla over History", "; TLC explores histories of calls and the ones it emits are replayed, next to each call on a new object in a process of its own"),
    "C18": ("spec/SymFile.tla", "; files are written, rearranged and read back by the real code"),
    "C17": ("spec/Outputs.tla", "; the traces hold the parsed output files next to the computed data"),
}
EXTRA = os.path.join(ROOT, "tools", "modules.json")
if os.path.exists(EXTRA):
    MODULES.update({k: tuple(v) for k, v in json.load(open(EXTRA)).items()})
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in MODULES:
        m, extra = MODULES[i]
        checks.append(dict(property=i, quick_cmd="/opt/venv/bin/python harness/check.py %s" % i,
                           thorough_cmd="/opt/venv/bin/python harness/check.py %s --tier thorough" % i,
                           technique=T % (m, extra), level="model_checking",
                           level_note="TLC evaluates every clause of the property on every event of every recorded run; the runs are generated scenarios (see DESIGN.md), so the verdict covers what was explored, not all inputs."))
    else:
        na.append(dict(property=i, reason="check under construction"))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import numpy, scipy, spglib, click' && java -version", checks=checks, not_applicable=na),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
