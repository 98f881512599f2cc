"""One-off: freezes facts about the pinned tree (run once; the output is committed).

catalogue.json : function name -> [element name, add_ws default], for tags and svg, taken from
                 scripts/generate_tags.py's classification and the function list (NOT from the
                 defaults found in the functions).
base_consts.json : constants in the pinned sources, so that constants that a change introduces
                 can be given more weight by the generators (fuzzing dictionary).
"""
import ast, json, sys
sys.path.insert(0, "/repo"); sys.path.insert(0, "/verif")
src = open("/repo/scripts/generate_tags.py").read()
inline = None
for n in ast.parse(src).body:
    if isinstance(n, ast.Assign) and n.targets[0].id == "_INLINE_TAG_NAMES":
        inline = ast.literal_eval(n.value)
cat = {}
for mod in ("tags", "svg"):
    t = ast.parse(open(f"/repo/htmltools/{mod}.py").read())
    cat[mod] = {n.name: [n.name, n.name not in inline] for n in t.body if isinstance(n, ast.FunctionDef)}
cat["inline"] = sorted(inline)
json.dump(cat, open("/verif/data/catalogue.json", "w"), indent=0, sort_keys=True)
from vfw.mine import collect
s, i = collect("/repo/htmltools")
json.dump({"str": sorted(s), "int": sorted(i)}, open("/verif/data/base_consts.json", "w"), indent=0)
print(len(cat["tags"]), len(cat["svg"]), len(s), len(i))
