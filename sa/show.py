"""Pretty prints instances of a dump: show.py PATTERN [N]"""
import json, os, sys, re
sys.path.insert(0, os.path.dirname(__file__))
def main():
    d = os.environ.get("DUMP") or sorted((os.path.join("/verif/work", x) for x in os.listdir("/verif/work") if x.startswith("dump-") and "tmp" not in x), key=os.path.getmtime)[-1]
    D = json.load(open(os.path.join(d, "fixture.json")))
    I = D["insts"]; T = D["types"]
    pat = re.compile(sys.argv[1]); n = int(sys.argv[2]) if len(sys.argv) > 2 else 3
    for i, x in enumerate(I):
        nm = x.get("full") or x["name"]
        if pat.search(nm):
            if n <= 0: print(i, nm, x["kind"], "body" if x.get("blocks") else "-"); continue
            print("=== %d %s [%s] argc=%s %s" % (i, nm, x["kind"], x.get("argc"), {k:v for k,v in x.items() if k in("trait_item","tname","ctor","ret","spread","unsafe")}))
            if x.get("blocks"):
                for j, l in enumerate(x["locals"]): print("  _%d: %s" % (j, T[l]["p"] if isinstance(l,int) else l))
                for b, blk in enumerate(x["blocks"]):
                    if blk[3] and "-c" not in sys.argv: continue
                    print(" bb%d%s  // %s" % (b, " (cleanup)" if blk[3] else "", blk[2]))
                    for s in blk[0]: print("    ", json.dumps(s))
                    t=blk[1]; print("    ->", json.dumps(t))
                    if t[0]=="call" and t[1][0]=="inst": print("         ", I[t[1][1]].get("full") or I[t[1][1]]["name"])
            n -= 1
            if n == 0: break
main()
