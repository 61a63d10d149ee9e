"""Writes known_findings.json: recorded findings, and the fix commits of /repo (run by hand)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
known = [
 {"property": "C02", "key": "Bq:default:not-started",
  "what": "the command line offers the triply periodic solver Bq, but no module spectralDNS.solvers.Bq exists (get_solver raises ModuleNotFoundError)"},
 {"property": "C20", "key": "KMM_RB-pressure:buoyancy",
  "what": "KMM_RB inherits get_pressure from KMM: the wall-normal gradient of the pressure it returns leaves out the buoyancy (the temperature) that drives the wall-normal velocity"},
]
P = {"cython ForwardEuler takes": "C07", "cython AB2_2D starts": "C07", "cython cross2 in 2D": "C13", "error estimate of adaptive": "C12",
     "AB2 and BS5 can start": "C07", "AB2 is consistent": "C07", "project works": "C24", "Rayleigh-Benard solvers solve": "C19",
     "sign of the mean temp": "C19", "KMMRK3_RB temperature": "C19", "KMM divergence convection": "C18", "KMMr standard and": "C18",
     "compute_derivatives": "C20", "KMMr get_pressure": "C20", "appending to a checkpoint": "C11", "doubly periodic convection accepts": "C02",
     "defaults set for one kind": "C02", "channel integral with": "C15", "defaults for solver specific": "C02",
     "Rayleigh-Benard temperature uses": "C19", "wall temperatures survive": "C19",
     "channel pressure takes": "C20", "C++ solver starts": "C22", "asking for the convection": "C20", "profile entries": "C25", "profiling does not": "C25",
     "isotropic demo": "C26", "channel demo": "C26", "Rayleigh-Benard demo": "C26", "vortices demo": "C26", "laminar channel demo": "C26",
     "the profile of a run": "C25", "option h5filename": "C02"}
fixed = []
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"): continue
    s = s[5:]
    pid = [v for k, v in P.items() if s.startswith(k)]
    assert pid, s
    fixed.append("fixed: property=%s %s %s" % (pid[0], h, s))
json.dump({"known": known, "fixed": fixed}, open(os.path.join(ROOT, "known_findings.json"), "w"), indent=1)
print(len(fixed))
