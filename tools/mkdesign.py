"""fill the generated parts of DESIGN.md: planted bugs and repaired defects (idempotent)"""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(H, "DESIGN.md")
s = open(p).read()
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    rows.append(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['needs']} | {', '.join(d.get('caught_by', [d['property']])) or 'not caught'} |")
kf = json.load(open(os.path.join(H, "KNOWN_FINDINGS.json")))
fx = [f"* {x[len('fixed: property='):] if isinstance(x, str) else x}" for x in kf["fixed"]]
for tag, body in (("TABLE", rows), ("FIXED", fx)):
    blk = f"<!-- {tag} -->\n" + "\n".join(body) + f"\n<!-- /{tag} -->"
    if f"@@{tag}@@" in s:
        s = s.replace(f"@@{tag}@@", blk)
    else:
        s = re.sub(rf"<!-- {tag} -->.*?<!-- /{tag} -->", lambda _: blk, s, flags=re.S)
open(p, "w").write(s)
