"""Writes MANIFEST.json from the table of checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = ("runtime monitoring: ASan/UBSan + assert build of the real parser run on generated schemas; online comparison of the "
         "dumped model with an independent reference model, and of refusals (with location) on single-rule violations")
T = {
    "P01": ("runtime monitoring: ASan/UBSan/assert build of parser and all generators under hostile, mutated schemas and options; crash/exit-code/diagnostic monitor", "fuzzing by structural and byte mutation, no coverage guarantee"),
    "P02": (MODEL, "about 120 kinds of single rule violations, random schemas"),
    "P03": (MODEL, "random schemas dominated by int/float fields"),
    "P04": (MODEL, "random schemas dominated by enum/set fields"),
    "P05": (MODEL, "random schemas with every composite kind"),
    "P06": (MODEL, "random schemas dominated by reuse, copy, replace, references"),
    "P07": (MODEL, "random schemas with versions on every level"),
    "P08": (MODEL, "random schemas; max length of fields with structured prefixes is checked as lower bound only"),
    "P09": (MODEL, "random schemas dominated by conditions"),
    "P10": ("runtime monitoring, metamorphic: the same schema in many spellings/splits through the sanitized parser and all generators, outputs compared", "random schemas and spellings"),
    "P11": (MODEL, "random schemas with many messages, interfaces, frames"),
}
NOTYET = "the generated plugin can only be observed by executing it, which needs Qt and the cc_tools_qt library; neither is available offline, and comparing generated text is not run time monitoring (the generator itself is monitored by P01, G01, G02, G03)"
READY = open(os.path.join(V, "tools", "ready.txt")).read().split()
EXTRA = {}
try:
    EXTRA = json.load(open(os.path.join(V, "tools", "techniques.json")))
except OSError:
    pass
T.update({k: tuple(v) for k, v in EXTRA.items()})
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in READY:
        checks.append(dict(property=i, quick_cmd="/usr/bin/python3 check.py %s quick" % i, thorough_cmd="/usr/bin/python3 check.py %s thorough" % i,
                           technique=T[i][0], level="exploration", level_note=T[i][1]))
    else:
        na.append(dict(property=i, reason=NOTYET))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="check.py <property> quick|thorough; VERIF_SEED selects the workload. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
