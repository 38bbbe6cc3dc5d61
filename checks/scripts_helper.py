"""Runs the benchmark scripts for checks/c44_miniapps.cpp: a request per line (JSON), an answer per line."""
import json, os.path, sys

sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), "pystubs"), sys.argv[1]]
os.path.isfile = lambda _: True  # the miniapps are not where the scripts expect them
import miniapps, postprocess  # noqa: E402

SYSTEM = {"Cores": 64, "Threads per core": 2, "Allowed rpns": [1, 2, 3, 4, 5, 6], "Multiple rpn in same job": True, "GPU": False}
for line in sys.stdin:
    r = json.loads(line)
    if r["do"] == "command":
        command, env = getattr(miniapps, r["alg"])(system=SYSTEM, lib="dlaf", miniapp_dir="/apps", nodes=r["nodes"],
                                                   nruns=r["nruns"], extra_flags=r["extra"], dtype=r["dtype"], **r["params"])
        print(command, flush=True)
    else:
        records = postprocess._parse_line_based(r["lines"], r["bench"], r["nodes"])
        print("|".join(";".join(f"{k}={v}" for k, v in sorted(x.items())) for x in records), flush=True)
