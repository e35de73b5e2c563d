"""functions of /repo's package that no contract executes (from the evidence files)"""
import ast, glob, json, os
R = os.environ.get("VF_REPO", "/repo") + "/safe_autonomy_dynamics/"
cov = set()
for f in glob.glob("/verif/evidence/C*.json"):
    cov |= set(json.load(open(f))["coverage"].get("functions_under_contract", []))
allf = {}
for p in glob.glob(R + "**/*.py", recursive=True):
    mod = os.path.relpath(p, R)[:-3].replace("/", ".")
    def walk(n, pre):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                if isinstance(c, ast.FunctionDef):
                    allf[mod + ":" + pre + c.name] = 1
                walk(c, pre + c.name + ".")
            else:
                walk(c, pre)
    walk(ast.parse(open(p).read()), "")
miss = sorted(set(allf) - cov)
print(len(allf), len(cov), len(miss)); print("\n".join(miss)); print("unmatched", sorted(cov - set(allf))[:20])
