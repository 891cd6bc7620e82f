"""Writes known_findings.json: repaired defects from the fix: commits of /repo, plus the findings that stay."""
import json, os, subprocess, sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [  # substring of the commit subject -> property
    ("FIR filters with a single", "C01"), ("FIRuncFilter", "C01"), ("IIRuncFilter", "C02"), ("GUM_DFT accepts", "C05"),
    ("GUM_iDFT", "C06"), ("integer valued covariance", "C05"), ("AmpPhase2", "C07"), ("DFT_deconv", "C08"), ("DFT_multiply", "C09"),
    ("interp1d_unc", "C10"), ("fix: MC ", "C12"), ("fix: SMC ", "C13"), ("fix: UMC uses", "C14"),
    ("UMC_generic pairs", "C16"), ("UMC_generic workers", "C16"), ("UMC_generic ends", "C16"), ("UMC_generic", "C15"),
    ("ARMA applies", "C17"), ("make_semiposdef", "C18"), ("FreqResp2RealImag", "C26"), ("trimOrPad", "C26"),
    ("isstable", "C25"), ("kaiser_lowpass", "C25"), ("group delay", "C25"),
]
EXTRA = os.path.join(here, "doc", "findings.json")
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
try:
    from fixmap import MORE
except ImportError:
    MORE = []
entries = []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    for k, p in MORE + MAP:
        if k in s:
            break
    else:
        sys.exit("no property for " + s)
    entries.append({"property": p, "status": "fixed", "commit": h, "what": "fixed: property=%s %s %s" % (p, h, s[5:])})
if os.path.exists(EXTRA):
    entries += json.load(open(EXTRA))
with open(os.path.join(here, "known_findings.json"), "w") as f:
    json.dump({"entries": entries}, f, indent=1)
    f.write("\n")
print(len(entries))
