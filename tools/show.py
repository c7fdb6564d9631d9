"""pretty-print traces compactly"""
import json, sys
def q(m):
    k=m.get("k")
    if k=="qc": return f"QC{m['ty']}({m['h']},{m['r']},{m['b'] or '-'} bits{m['bits']} sg{m['sg']} ok{m['ok']})"
    if k=="ac": return f"AC({m['h']},{m['r']} vs{m['vs']} ok{m['ok']})"
    if k=="prop": return f"PROP({m['h']},{m['r']},{m['b']}/{m['c']} by{m['by']} ok{m['ok']} lock{[(l['lr'],q(l['qc'])) for l in m['lock']]})"
    if k=="vote": return f"VOTE{m['ty']}({m['h']},{m['r']},{m['b'] or '-'} by{m['by']} ok{m['ok']})"
    if k=="choke": return f"CHOKE({m['h']},{m['r']} by{m['by']} ok{m['ok']} from {m['from']['k']}:{q(m['from']['qc'])})"
    if k=="status": return f"STATUS({m['h']} iv{m['iv']} tc{m['tc']} au{[(a['a'],a['w']) for a in m['au']]})"
    return k
def l(e):
    x=e["e"]
    if x=="in": return "  <- "+q(e["m"])
    if x in("bc","tx"): return f"-> {x} {e.get('to','')} {q(e['m'])}"
    if x=="wal": w=e["w"]; return f"wal r{e['r']} ({w['h']},{w['r']}) st{w['st']} lock{[(k['lr'],q(k['qc']),k['c']) for k in w['lock']]} from {w['from']['k']}:{q(w['from']['qc'])}"
    if x=="load": return "load "+(("(%d,%d) st%d"%(e['w'][0]['h'],e['w'][0]['r'],e['w'][0]['st'])) if e['w'] else "none")
    if x=="start": return f"START me{e['me']} ih{e['ih']} iv{e['iv']} tc{e['tc']} au{[(a['a'],a['w']) for a in e['au']]}"
    if x=="cm": return f"COMMIT r{e['r']} {e['h']} {e['c']} {q(e['pf'])}"
    return " ".join(f"{k}={v}" for k,v in e.items() if k!="t")
if __name__=="__main__":
    want=sys.argv[2:] 
    for n,line in enumerate(open(sys.argv[1])):
        t=json.loads(line)
        if want and t["id"] not in want and str(n) not in want: continue
        print("==",n,t["id"])
        for i,e in enumerate(t["ev"]): print(f"{i+1:4} {e['t']:6} {l(e)}")
