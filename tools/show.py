import json,sys
c=json.load(open(sys.argv[1]))
print(c['message'])
def strip(x):
    if isinstance(x,dict): return {k:(strip(v) if k not in('e','m') or not isinstance(v,(dict,list)) else '..') for k,v in x.items()}
    if isinstance(x,list): return [strip(v) for v in x]
    return x
print(json.dumps(strip(c['case'])))
