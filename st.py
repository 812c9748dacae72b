import json,sys
d=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))['coverage']
for k,t in d['tests'].items(): print(k, t['paths'],'complete' if t['complete'] else 'INCOMPLETE','ob',t['obligations'],'q',t['queries'],'solver',t['solver_s'],'wall',t['wall_s'],'unk',t['unknown'],'nat',t['native_sym'],'cap',t['cap_hit'])
print(d['uninstrumented_callees_given_symbolic_arguments'])
