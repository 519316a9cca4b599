"""records the call shapes of the functions the harnesses call directly (run on the unchanged tree)"""
import importlib, inspect, json, os, sys, pkgutil
sys.path.insert(0, "/repo")
import refextract
out = {}
for m in pkgutil.walk_packages(refextract.__path__, "refextract."):
    try:
        mod = importlib.import_module(m.name)
    except Exception:
        continue
    for n, f in vars(mod).items():
        if inspect.isfunction(f) and f.__module__.startswith("refextract"):
            out["%s:%s" % (m.name, n)] = [p.name for p in inspect.signature(f).parameters.values() if p.kind == p.POSITIONAL_OR_KEYWORD]
json.dump(out, open(os.path.join(os.path.dirname(__file__), "..", "harness", "signatures.json"), "w"), indent=0, sort_keys=True)
