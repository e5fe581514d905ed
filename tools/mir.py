#!/usr/bin/env python3
"""Pretty-print instances from a dump: mir.py DUMPDIR CRATE REGEX"""
import json,sys,re
d=json.load(open(f"{sys.argv[1]}/{sys.argv[2]}.json"))
T=d["types"]; I=d["insts"]
def pl(p):
    s=f"_{p['l']}"
    for e in p["p"]:
        if e=="*": s=f"(*{s})"
        elif "f" in e: s+=f".{e['f']}"
        elif "i" in e: s+=f"[_{e['i']}]"
        elif "d" in e: s+=f"@{e['d']}"
        elif "ci" in e: s+=f"[{e['ci']}{'e' if e['fe'] else ''}]"
        elif "ss" in e: s+=f"[{e['ss']}..{e['to']}{'e' if e['fe'] else ''}]"
        else: s+=str(e)
    return s
def op(o):
    if o["k"] in("cp","mv"): return pl(o["pl"])
    if o["k"]=="const": return f"const<{T[o['ty']]['s']}>{json.dumps(o['val'])[:90]}"
    return str(o)
def rv(r):
    k=r["k"]
    if k=="use": return op(r["o"])
    if k=="repeat": return f"[{op(r['o'])};{r['n']}]"
    if k in("ref","addr"): return f"&{k}{'mut' if r.get('mut') else ''} {pl(r['pl'])}"
    if k=="cast": return f"{op(r['o'])} as[{r['ck']}] {T[r['ty']]['s']}"
    if k=="bin": return f"{r['op']}({op(r['a'])},{op(r['b'])})"
    if k=="un": return f"{r['op']}({op(r['a'])})"
    if k=="discr": return f"discr({pl(r['pl'])})"
    if k=="agg": return f"agg {json.dumps(r['a'])} {[op(x) for x in r['f']]}"
    return str(r)
def fn(f):
    if "i" in f: return f"#{f['i']} {I[f['i']]['name']} [{I[f['i']]['kind']}{'' if I[f['i']].get('body') else ' nobody'}]"
    if "u" in f: return "UNRES "+json.dumps(f["u"])
    return str(f)
def show(n,i):
    print(f"== #{n} {i['name']} kind={i['kind']} env={i.get('env')} span={i.get('span')}")
    b=i.get("body")
    if not b: return
    for x,t in enumerate(b["locals"]): print(f"   _{x}: {T[t]['s']}"+("  ARG" if 0<x<=b['argc'] else ""))
    for x,bb in enumerate(b["bbs"]):
        if bb.get("cl"): continue
        print(f" bb{x}:")
        for s in bb["s"]:
            if s["k"]=="as": print("   ",pl(s["pl"]),"=",rv(s["rv"]))
            else: print("   ",s)
        t=bb["t"]; k=t["k"]
        if k=="call": print("   ",pl(t["d"]),"= CALL",fn(t["f"]),[op(a) for a in t["a"]],"->",t.get("t"))
        elif k=="switch": print("    switch",op(t["o"]),t["v"],"else",t["else"])
        elif k=="assert": print("    assert",op(t["c"]),t["e"],t["m"],[op(x) for x in t.get("ops",[])],"->",t["t"])
        elif k=="drop": print("    drop",pl(t["pl"]),"->",t["t"])
        else: print("   ",{a:b for a,b in t.items() if a!="sp"})
r=re.compile(sys.argv[3])
for n,i in enumerate(I):
    if r.search(i["name"]): show(n,i)
