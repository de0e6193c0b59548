"""campaign.py WORKERS OUT [file-substring ...]: runs the checks against mutants, in copies of /repo
and /verif bound over the originals in a private mount namespace."""
import json,os,random,subprocess,sys,threading,queue,time,re
workers,out=int(sys.argv[1]),sys.argv[2]; subs=sys.argv[3:]
cap=json.loads(os.environ.get("CAP","{}")); capall=int(os.environ.get("CAPALL","60"))
props=[json.loads(l) for l in open("/verif/properties.jsonl")]
cost={}
for p in props:
    try: cost[p["id"]]=json.load(open(f"/verif/evidence/{p['id']}.json")).get("wall_s",0) or 0
    except Exception: cost[p["id"]]=50
byfile={}
for p in props:
    s=json.dumps(p)
    for f in set(re.findall(r'"([a-zA-Z0-9_/]+\.go)"',s)): byfile.setdefault(f,[]).append(p["id"])
for f in byfile: byfile[f].sort(key=lambda i:cost[i])
skip=set(os.environ.get("SKIP","").split(","))
for f in byfile: byfile[f]=[x for x in byfile[f] if x not in skip]
extra=json.loads(os.environ.get("EXTRA","{}"))
muts=[json.loads(l) for l in open("/tmp/mutants.jsonl")]
random.seed(int(os.environ.get("SEED","1")))
sel=[]
byf={}
for m in muts:
    if subs and not any(s in m["file"] for s in subs): continue
    byf.setdefault(m["file"],[]).append(m)
for f,ms in byf.items():
    random.shuffle(ms); sel+=ms[:cap.get(f,capall)]
random.shuffle(sel)
done=set()
if os.path.exists(out):
    for l in open(out):
        r=json.loads(l); done.add((r["file"],r["From"],r["To"],r["Text"]))
q=queue.Queue()
for m in sel:
    if (m["file"],m["From"],m["To"],m["Text"]) not in done: q.put(m)
print("mutants",q.qsize(),flush=True)
lock=threading.Lock()
def work(i):
    d=f"/tmp/mut/w{i}"; os.makedirs(d,exist_ok=True)
    for x in ("repo","verif"):
        subprocess.run(f"rm -rf /tmp/mut/w{i}/{x}; cp -a /{x} {d}/{x}",shell=True,check=True)
    subprocess.run(f"rm -rf /tmp/mut/w{i}/verif/seeded",shell=True)
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        path=f"{d}/repo/{m['file']}"; src=open(path,"rb").read()
        open(path,"wb").write(src[:m["From"]]+m["Text"].encode()+src[m["To"]:])
        ids=extra.get(m["file"],[])+[x for x in byfile.get(m["file"],[]) if x not in extra.get(m["file"],[])]
        res=[];verdict="survived" if ids else "nocheck"
        t=time.time()
        for pid in ids:
            cmd=f"mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && cd /verif && export VC_MEM_MB=3200; exec timeout 400 ./run.sh {pid}"
            r=subprocess.run(["taskset","-c",str(i%os.cpu_count()),"unshare","-Urm","bash","-c",cmd],capture_output=True,text=True)
            o=r.stdout+r.stderr
            if r.returncode==1 and "VIOLATION property="+pid in o: verdict="killed"; res=[pid]; break
            if r.returncode!=0: res.append([pid,r.returncode,o[-300:]]); verdict="error"
            if r.returncode!=0 and re.search(r"declared and not used|imported and not used|syntax error|undefined|cannot use|mismatched types|invalid op|missing return|overflows|duplicate case|label|not enough|too many|load",o): verdict="invalid"; break
        open(path,"wb").write(src)
        m.update(verdict=verdict,by=res,t=round(time.time()-t,1),checks=ids)
        with lock: open(out,"a").write(json.dumps(m)+"\n")
ts=[threading.Thread(target=work,args=(i,)) for i in range(workers)]
[t.start() for t in ts];[t.join() for t in ts]
