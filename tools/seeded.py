"""rewrites the table of planted bugs in DESIGN.md:  python3 tools/seeded.py"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST_MISSED = {"forward-single": "C04 now uses values beyond single precision", "polyfit-order": "C14 now has rows of fourth order",
                "threshold-rows": "C18 now compares an image with its transpose", "video-pad-centre": "C28 now pads unevenly",
                "slice-buffer": "C27 now looks at results again at the end of a history", 
                "cross-parabola-tol": "tolerance of C11 tightened again after a loosening had hidden it", "miss-many": "C13 now has long gaps",
                "horizon-sign": "C09 now has a horizon inside the frame",
                "slice-window-cap": "C02 now has large, strongly bent frames", "auto-pad-bottom": "C03 now has models whose nearer corner moves farther",
                "horizon-near": "C08 now has points close to the horizon", "points-wrap": "C21 now has points far outside the frame",
                "offset-clip": "C19 now has offsets up to the limit"}
rows = ["| planted bug | property | needs | check |", "|---|---|---|---|"]
for p in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m, i = json.load(open(p)), os.path.basename(os.path.dirname(p))
    rows.append("| %s | %s | %s | caught%s |" % (i, m["property"], m["needs"].replace("|", "/"), "; first missed: " + FIRST_MISSED[i] if i in FIRST_MISSED else ""))
f = os.path.join(V, "DESIGN.md")
t = open(f).read()
t = re.sub(r"<!-- SEEDED -->.*", lambda _: "<!-- SEEDED -->\n" + "\n".join(rows) + "\n", t, flags=re.S)
open(f, "w").write(t)
