"""Write data/option_scope.json: module combinations in which each option is read (reviewed by hand)."""
import json, sys
sys.path.insert(0, "/verif"); sys.setrecursionlimit(20000)
from oasa import runner
from oasa.project import Project, load_schema
from checks.cfgcommon import items, census
from checks.p01 import scope, TABLE, BASE
pr = Project("/repo"); sc = load_schema(pr)
its = [x for x in items(pr, sc)[0] if x[0] == "model" and not set(x[1]) - BASE]
tab = scope(runner.pmap(census, pr, sc, its), its)
tab.pop("__analysed__")
runs = sorted({x for v in tab.values() for x in v})
json.dump(dict(runs=runs, options={k: sorted(runs.index(x) for x in v) for k, v in sorted(tab.items()) if not k.startswith(("land_cover", "output_data", "liveview"))}),
          open(TABLE, "w"))
