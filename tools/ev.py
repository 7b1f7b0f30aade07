import json,sys,glob
for f in sorted(glob.glob('/verif/evidence/*.json')):
    e=json.load(open(f)); i=e['property']
    if len(sys.argv)>1 and i not in sys.argv[1:]: continue
    for s in e['coverage']['sub_checks']: print(i,s['name'],s['cases'],'nt',s['distinct_nontrivial'],'ex',s['executions_of_the_code_under_test'],s['space_completed'],s['wall_s'],s['classes'])
