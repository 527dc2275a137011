"""Print a replay file briefly."""
import json, sys
for f in sys.argv[1:]:
    d = json.load(open(f))
    print(f, d["violation"]["kind"], d["violation"]["detail"][:700])
    print(json.dumps(d["scenarios"])[:2600])
    print(d["trace"][-4:])
