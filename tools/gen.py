"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from tools/ (run by hand after editing the texts)."""
import ast
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, text, why, files, mech, note, technique="explicit-state model checking of the real code",
      claimed=True, reason=None, state=None):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note,
                      technique=technique, claimed=claimed, reason=reason, state=state))


def design():
    """DESIGN.md: head, one section per property (statement, exploration, bounds, cost), planted bugs, findings, tail."""
    read = lambda f: open(os.path.join(ROOT, f)).read()
    cost = json.loads(read("tools/costs.json"))
    out = [read("tools/design_head.md"), "## Properties\n"]
    for p in PROPS:
        g = {}
        for n in ast.parse(read(f"mc/props/{p['id']}.py")).body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("RULE", "ASSUMPTIONS"):
                g[n.targets[0].id] = ast.literal_eval(n.value)
        c = cost.get(p["id"], {})
        out.append(f"### {p['id']} {p['title']}\n\n*Property.* {p['statement']}\n\n*Enumerated and compared.* {g['RULE']}\n\n*Bounds.* {p['text']}; {p['note']}. "
                   f"Assumes: {'; '.join(g.get('ASSUMPTIONS', []))}.\n\n*Beyond the tests.* {p['why'][0].upper() + p['why'][1:]}.\n\n*Cost (8 cores).* "
                   + "; ".join(f"{t}: {c[t]['traces']} traces, {c[t]['steps']} steps, {c[t]['wall']} s" for t in ("quick", "thorough") if t in c) + ".\n")
    out.append("## Planted bugs and the checks that catch them\n\nEach was planted from the property's text, passes the repository's tests and has a demonstration; `caught` lists the checks (quick tier) that report it.\n\n| bug | property | what it breaks | needs | caught |\n|---|---|---|---|---|")
    caught = json.loads(read("tools/catches.json"))
    S = os.path.join(ROOT, "seeded")
    for b in sorted(os.listdir(S)):
        m = json.loads(read(f"seeded/{b}/meta.json"))
        out.append(f"| {b} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {caught.get(b, '?')} |")
    out.append("\n## Genuine defects\n\nRepaired (one `fix:` commit each) and recorded findings, from `known_findings.txt`:\n")
    for l in read("known_findings.txt").splitlines():
        m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
        n = re.match(r"finding: property=(\w+) key=(\S+) \| (.*)", l)
        if m:
            out.append(f"* {m[1]}, repaired in {m[2]}: {m[3]}")
        elif n:
            out.append(f"* {n[1]}, **recorded** (`{n[2]}`): {n[3]}")
    out += ["", read("tools/design_tail.md")]
    open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))


def main():
    for f in sorted(os.listdir(os.path.join(ROOT, "tools"))):
        if re.fullmatch(r"spec.*\.py", f):
            exec(compile(open(os.path.join(ROOT, "tools", f)).read(), f, "exec"), {"P": P})
    PROPS.sort(key=lambda p: ("MGURSDK".index(p["id"][0]), p["id"]))
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as out:
        for p in PROPS:
            for f in p["files"]:
                assert os.path.exists(os.path.join("/repo", f)), f
            a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
            if p["state"]:
                a["state"] = p["state"]
            out.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                      quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
    checks, na = [], []
    sys.path.insert(0, ROOT)
    for p in PROPS:
        path = os.path.join(ROOT, "mc", "props", p["id"] + ".py")
        if p["claimed"] and os.path.exists(path):
            level = re.search(r'^LEVEL = "(\w+)"', open(path).read(), re.M).group(1)
            checks.append(dict(property=p["id"], quick_cmd=f"./check {p['id']}", thorough_cmd=f"VERIF_TIER=thorough ./check {p['id']}",
                               technique=p["technique"], level=level, level_note=p["note"]))
        else:
            na.append(dict(property=p["id"], reason=p["reason"] or "check not built yet"))
    json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
                   hooks=dict(guard="RAINBOW_MC_HOOKS", enable="no hooks were needed: the checks import the unmodified package and "
                              "control schedules, random draws and clocks from outside; the variable is reserved and read nowhere",
                              source_commits=[]),
                   notes="See DESIGN.md. Every check runs the real code of /repo under /opt/venv/bin/python."),
              open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    design()
    print(len(PROPS), "properties,", len(checks), "checks,", [n["property"] for n in na])


main()
