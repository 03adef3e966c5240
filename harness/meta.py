"""Prints the plan and texts of a check without importing protosym."""
import ast, json, os, sys

src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks", sys.argv[1].lower() + ".py")).read()
d = {"level": "exploration", "assumptions": [], "floors": {"cases": 16}, "evaluations": "cases"}
for node in ast.parse(src).body:
    if isinstance(node, ast.ClassDef) and node.name == "CHECK":
        for st in node.body:
            if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
                try:
                    d[st.targets[0].id] = ast.literal_eval(st.value)
                except ValueError:
                    pass
print(json.dumps(d))
