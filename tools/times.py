import json,sys
d=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
for s in sorted(d['coverage']['samples'],key=lambda s:-s['wall_s']): print(s['entry'],'wall',s['wall_s'],'paths',s['paths'],'q',s['queries'],'sol',round(s['solver_s'],1),'as',s['assertions'],s['by'])
print(d['coverage']['undecided'], d['wall_s'])
