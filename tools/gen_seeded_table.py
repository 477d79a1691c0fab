#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (between the two marker lines)."""
import glob
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# what was missing when the check did not see the change at first
LATER = {
    "p02_unchecked_zip": "vectors of wrong lengths for the unchecked setter",
    "p03_remove_by_name": "duplicate names in P03",
    "p03_ancestors": "forests of up to 80 nodes",
    "p10_pseudo_eps": "small arms",
    "p12_small_range": "limits of many scales",
    "p15_many_visuals": "links with up to 20 parts",
    "p19_velocity_keep": "velocities with the sign or last bit changed",
    "p19_nan_move": "ways by NaN and infinities",
    "p21_rename": "names with white space",
    "p11_once": "several steps, each compared with the model",
    "p19_epoch": "hundreds of moves between two updates",
    "p22_end_stores": "poses which queries leave behind",
    "p23_last_arm": "names of a traceable size, to see a single node kept alive",
    "p12_trim": "names of links and joints which differ by white space or case only",
    "p18_shared_scratch": "one solver used by all threads (written together with the change)",
    "p23_null_function": "null space functions which hold nodes (written together with the change)",
    "p23_urdf": "robots made from URDF (written together with the change)",
    "p26_unwrap": "threads which walk over the subtrees others attach and detach",
    "p16_negative": "negative masses",
    "p12_same_in_f32": "limits whose ends differ in double precision only",
    "p17_above_first": "chains of any nodes (and the repair of what they showed)",
    "p18_torn_link": "poses observed while joints move (written together with the change)",
    "p18_missing_two": "poses observed while joints move (written together with the change)",
    "p18_com_cache": "centers of mass observed while joints move (the defect repaired by a9935d5)",
    "p24_index_cache": "solving for another robot in between",
}
LATER.update(json.load(open(V + "/tools/later.json")) if os.path.exists(V + "/tools/later.json") else {})
rows = []
for d in sorted(glob.glob(V + "/seeded/*")):
    i = os.path.basename(d)
    m = json.load(open(d + "/meta.json"))
    c = "yes, after adding: " + LATER[i] if i in LATER else "yes"
    rows.append("| %s | %s | %s Needs: %s. | %s |" % (i, m["property"], m["what_it_breaks"].rstrip(), m["needs"].rstrip("."), c))
t = "| change | check | what it does | caught |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
p = V + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- seeded table -->\n", "<!-- end of seeded table -->\n"
if a not in s:
    s += "\n## Planted bugs\n\n" + a + b
s = s[:s.index(a) + len(a)] + t + s[s.index(b):]
open(p, "w").write(s)
print(len(rows))
