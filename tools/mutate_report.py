import json,sys
for f in sys.argv[1:]:
    for r in sorted((json.loads(l) for l in open(f)),key=lambda r:(r['file'],r['line'])):
        if not r.get('hit'):
            v=r.get('verd',{}); n={}
            for k,x in v.items(): n.setdefault(x,[]).append(k.split(':')[1])
            print(r['file'][6:],r['line'],r['func'],r['op'],'|',r['before'].replace('\n','; ')[:70],'|',{k:x for k,x in n.items() if k!='PROVED'}, r.get('err',''))
