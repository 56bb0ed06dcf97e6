"""Writes DESIGN.md.    python tools/design.py"""
import glob
import importlib
import json
import os
import sys
import textwrap

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [VERIF, "/repo"]


def fill(text, indent=""):
    return textwrap.fill(" ".join(text.split()), 79, initial_indent=indent,
                         subsequent_indent=indent and "  ",
                         break_long_words=False, break_on_hyphens=False)


def main():
    from mon import catalogue as cat
    from tools.how import HOW
    out = [open(os.path.join(VERIF, "tools/design_head.md")).read()]
    for p in cat.P:
        path = glob.glob(os.path.join(VERIF, "mon", p["id"].lower() + "_*.py"))
        m = importlib.import_module("mon." + os.path.basename(path[0])[:-3])
        out.append("### %s  %s\n" % (p["id"], p["title"]))
        out.append(fill("*Specified.* " + p["statement"]) + "\n")
        out.append(fill("*Workloads.* " + m.RULE + ".") + "\n")
        out.append(fill("*Oracle.* " + p["technique"].replace(
            "runtime oracle: ", "").replace("runtime monitor: ", "") + ". " +
            HOW.get(p["id"], "")) + "\n")
        out.append(fill("*Cases, quick / thorough.* " + ", ".join(
            "%s %d / %d" % (k, v[1], v[2]) for k, v in m.CASES.items()) + ".")
            + "\n")
        out.append(fill("*Observations required.* " + ", ".join(
            "%s >= %d" % kv for kv in m.REQUIRED.items()) + ".") + "\n")
        out.append(fill("*Assumed.* " + "; ".join(m.ASSUMPTIONS) + ".") + "\n")
        out.append(fill("*Beyond the tests.* The property is over " +
                        p["text"] + "; " + p["why"] + ".") + "\n")
        out.append(fill("*Code.* " + ", ".join(
            "`%s`" % f.replace("menpofit/", "") for f in p["files"]) +
            " (`%s`)." % os.path.relpath(path[0], VERIF)) + "\n")
    rows = ["| planted bug | property | what it needs |", "|---|---|---|"]
    for d in sorted(glob.glob(os.path.join(VERIF, "seeded", "*", "meta.json"))):
        j = json.load(open(d))
        also = j.get("also", "")
        rows.append("| %s | %s%s | %s |" % (
            os.path.basename(os.path.dirname(d)), j["property"],
            " " + also if also else "",
            " ".join(j["needs"].split()).replace("|", "/")))
    tail = open(os.path.join(VERIF, "tools/design_tail.md")).read()
    fixes = {}
    for line in open(os.path.join(VERIF, "known_findings.jsonl")):
        e = json.loads(line)
        fixes[e["property"]] = fixes.get(e["property"], 0) + 1
    out.append(tail.replace("@@SEEDED@@", "\n".join(rows)).replace(
        "@@NFIX@@", str(sum(fixes.values()))).replace("@@FIXES@@", fill(
            ", ".join("%s %d" % kv for kv in sorted(fixes.items())))))
    with open(os.path.join(VERIF, "DESIGN.md"), "w") as f:
        f.write("\n".join(out))


if __name__ == "__main__":
    main()
