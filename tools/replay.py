"""replay.py FILE: runs the recorded request again on the current tree and prints what is observed"""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, runner, chk

d = json.load(open(sys.argv[1]))
print(d["key"], d["what"])
rp = d["replay"]
c = rp.get("case")
if c:
    case = chk.Case(c["codes"], c["flags"], c["module"], c["input"], c["files"])
    chk._predict(case)
    r = runner.run(build.build("asan"), [case.req()], files=case.files)[0]
    print("predicted:", case.err or json.dumps(case.ref, indent=1))
    print("observed:", json.dumps(r.r, indent=1) if r.rec else runner.crash_summary(r))
else:
    q = rp.get("request")
    if isinstance(q, dict) and "codes" in q:
        q = {"kind": "eval", "fields": [q["flags"], q["module"], q["input"]] + q["codes"]}
    for x in q if isinstance(q, list) else [q]:
        if isinstance(x, dict) and "kind" in x:
            r = runner.run(build.build("asan"), [runner.Req(x["kind"], *x["fields"])])[0]
            print(json.dumps(r.rec, indent=1) if r.rec else runner.crash_summary(r))
        else:
            print(json.dumps(x, indent=1))
