"""Write DESIGN.md from tools/design_*.md, the RULE strings of the checks and the planted changes."""
import ast
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def rule(c):
    tree = ast.parse(open(f"{ROOT}/rv/props/{c.lower()}.py").read())
    out = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and n.targets[0].id in ("RULE", "CASES", "MIN"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def main():
    text = open(f"{ROOT}/tools/design_main.md").read()
    details = open(f"{ROOT}/tools/design_props.md").read()
    parts = dict(re.findall(r"^## (C\d\d)\n(.*?)(?=^## C|\Z)", details, re.S | re.M))
    titles = {}
    for line in open(f"{ROOT}/properties.jsonl"):
        p = json.loads(line)
        titles[p["id"]] = p["title"]
    out = []
    for c, t in titles.items():
        r = rule(c)
        out.append(f"### {c} {t}\n\n{parts[c].strip()}\n\nWorkload rule: {r['RULE']}.  Quick: up to {r['CASES']['quick']} generated cases, thorough: {r['CASES']['thorough']}.\n"
                   f"Decided only when the monitors saw at least: " + ", ".join(f"{k} {v}" for k, v in r["MIN"].items()) + ".\n")
    text = text.replace("@PROPERTIES@", "\n".join(out))
    rows = ["| change | property | needs | breaks |", "|-|-|-|-|"]
    for id in sorted(os.listdir(f"{ROOT}/seeded")):
        m = json.load(open(f"{ROOT}/seeded/{id}/meta.json"))
        rows.append(f"| {id} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
    text = text.replace("@SEEDED@", "\n".join(rows))
    fixes = []
    for line in open(f"{ROOT}/known_findings.jsonl"):
        k = json.loads(line)
        fixes.append(f"* {k['what']}")
    text = text.replace("@FIXES@", "\n".join(fixes))
    open(f"{ROOT}/DESIGN.md", "w").write(text)


main()
