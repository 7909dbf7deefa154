#!/usr/bin/env python3
"""Self-test of the trace validation: record runs of the real code, spoil one
observation in each, and count how many TLC still accepts. Not a check.
usage: corrupt.py PROPERTY JOB [SEED]"""
import json, os, random, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
from plan import PLAN

prop, name = sys.argv[1:3]
seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
job = dict(next(j for j in PLAN[prop]["jobs"] if j["name"] == name), count=200)
exe = check.build()
tmp = tempfile.mkdtemp()
random.seed(seed)
record, tally, kinds = check.harness, {}, {}


def spoil(line):
    """Change one number that the code answered"""
    def numbers(x, path=()):
        if isinstance(x, dict):
            for k in x:
                yield from numbers(x[k], path + (k,))
        elif isinstance(x, list):
            for i, y in enumerate(x):
                yield from numbers(y, path + (i,))
        elif isinstance(x, int) and not isinstance(x, bool):
            yield path
    ps = list(numbers(line))
    if not ps:
        return False
    p = random.choice(ps)
    for k in p[:-1]:
        line = line[k]
    line[p[-1]] += random.choice([-1, 1, 7])
    return p


def spoiled(exe, args, timeout):
    record(exe, args, timeout)
    data = json.load(open(args[2]))
    for r in data["runs"]:
        lines = r["trace"]["lines"]
        for i in random.sample(range(len(lines)), len(lines)):
            if job["module"] == "CommandsTrace" and lines[i]["e"] not in ("got", "processed"):
                continue
            p = spoil(lines[i])
            if p:
                r["kind"] = lines[i].get("e", lines[i].get("op", "")) + " " + "/".join(map(str, p))
                break
    json.dump(data, open(args[2], "w"))


check.harness = spoiled
res = check.validate(job, tmp, exe, seed, 900)
for v in res["violations"]:
    k = v["record"]["kind"]
    kinds[k] = kinds.get(k, 0) + 1
print(f"{len(res['violations'])} of {res['traces']} spoiled runs rejected", kinds)
shutil.rmtree(tmp)
