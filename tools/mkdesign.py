"""DESIGN.md from tools/design_head.md, the rules' docstrings, tools/design_tail.md and seeded/*/meta.json"""
import ast, glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = lambda p: open(os.path.join(here, p)).read()
BOUNDS = json.loads(R("tools/bounds.json"))
out = [R("tools/design_head.md").rstrip(), "", "## Property by property", "",
       "Each entry: what is analysed and against what oracle, then the bounds and the time of the quick tier on 8 cores. \"Symbolic\" means every value the format's field can hold, at once.", ""]
for l in R("properties.jsonl").splitlines():
    p = json.loads(l)
    i = p["id"]
    doc = ast.get_docstring(ast.parse(R(f"sa/rules/{i.lower()}.py")))
    out += [f"### {i} {p['title']}", "", doc.split(": ", 1)[1] if doc.startswith(i + ":") else doc, "",
            f"*Bounds and cost:* {BOUNDS.get(i, '')}  *Beyond the tests:* {p['why_tests_cant']}", ""]
    out[-3] = "\n".join(x.strip() for x in out[-3].splitlines())
out += [R("tools/design_tail.md").rstrip(), "", "## Planted bugs", "",
        "Each is one change to original lines, with a demonstration, in `seeded/<id>`; `needs` says what it takes to show it.", "",
        "| id | property | needs | caught by |", "|---|---|---|---|"]
res = json.loads(R("tools/caught.json"))
for f in sorted(glob.glob(os.path.join(here, "seeded/*/meta.json"))):
    m = json.load(open(f))
    s = os.path.basename(os.path.dirname(f))
    out.append(f"| {s} | {m['property']} | {m['needs']} | {', '.join(res.get(s, [])) or '?'} |")
open(os.path.join(here, "DESIGN.md"), "w").write("\n".join(out) + "\n")
