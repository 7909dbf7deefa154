import json, sys
for r in json.load(open(f"/verif/evidence/{sys.argv[1]}.json"))["coverage"]["runs"]:
    print({k: v for k, v in r.items() if k not in ("constants", "invariants")})
