import json,sys
p='/verif/known_findings.json';d=json.load(open(p));d['fixed'].append(sys.argv[1]);json.dump(d,open(p,'w'),indent=1,ensure_ascii=False);open(p,'a').write('\n')
