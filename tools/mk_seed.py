"""helper: mk_seed.py ID PROPERTY FILE 'old' 'new' needs what  (demo.sh/demo.cpp written separately)"""
import sys, json, os
id_, prop, f, old, new, needs, what = sys.argv[1:8]
p = "/tmp/wt/" + f; s = open(p).read()
assert s.count(old) == 1, s.count(old)
open(p, "w").write(s.replace(old, new))
d = "/verif/seeded/" + id_; os.makedirs(d, exist_ok=True)
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
