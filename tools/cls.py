import json,glob,sys,collections
d=collections.Counter()
for f in sorted(glob.glob('/verif/out/%s/replay-*.json'%sys.argv[1])):
    r=json.load(open(f)); rp=r['replay']
    print(f.split('/')[-1], r['what'][:150])
    if isinstance(rp,dict):
        print('   EV', json.dumps(rp.get('event'))[:400]); print('   WANT', json.dumps(rp.get('expected'))[:300]); print('   HDR', json.dumps(rp.get('hdr'))[:int(sys.argv[3]) if len(sys.argv)>3 else 300])
    if int(f[-8:-5])>=int(sys.argv[2] if len(sys.argv)>2 else 5): break
