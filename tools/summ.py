import json, sys, collections
d = json.load(open(sys.argv[1])); c = collections.Counter()
for v in d['violations']:
    e = v['event']; c[(v['clause'],) + tuple(str(e.get(k)) for k in sys.argv[2:])] += 1
for k, n in c.most_common(40): print(n, k)
