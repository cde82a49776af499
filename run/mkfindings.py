#!/usr/bin/env python3
"""Maintenance only: refreshes the "fixed" list of known_findings.json from the fix: commits in /repo. Checks never run this."""
import json, os, re, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES = [("without synchronisation", "C28"), ("adaptive bandwidth below one|not finite|single independent variable|without candidates|overflowed", "C25"), ("validity of an algorithm|reported valid|reported success with zero", "C24"), ("results of an earlier fit, or none", "C23"), ("follows a cancelled|is cancelled|being told to stop", "C22"), ("MPI|mpi", "C09"), ("prediction|predict", "C07"), ("OpenMP|threads of|raced", "C08"), ("Minkowski|great-circle", "C02"), ("copies|copying|spatial weight", "C03"), ("variable selection", "C05"),
         ("bounds set for its bandwidth", "C04"), ("offers only in part", "C26"), ("bandwidth search", "C04"), ("quantiles", "C12"), ("GWPCA", "C13"), ("discriminant", "C21"), ("GWDR", "C20"), ("multiscale", "C18"), ("scalable", "C17"), ("robust", "C14"), ("local-collinearity", "C16"), ("generalized", "C15"), ("default bandwidth criterion", "C10")]
p = os.path.join(HERE, "known_findings.json"); k = json.load(open(p)); k["fixed"] = []
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    pid = next((q for r, q in RULES if re.search(r, s)), "C06")
    k["fixed"].append("fixed: property=%s %s %s" % (pid, h, s[5:]))
open(p, "w").write("{\n \"known\": [\n" + ",\n".join("  " + json.dumps(x) for x in k["known"]) + "\n ],\n \"fixed\": [\n" + ",\n".join("  " + json.dumps(x) for x in k["fixed"]) + "\n ]\n}\n")
