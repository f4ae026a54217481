import collections,glob,sys,re
S=collections.defaultdict(lambda: collections.defaultdict(set))
for fn in glob.glob('out/*'):
    p=fn.split('/')[1].split('.')[0]
    for l in open(fn):
        a=l.rstrip('\n').split('\t')
        if len(a)==2: S[a[0]][a[1]].add(p)
def key(s): 
    m=re.match(r'(\w+):(\d+):(\d+)',s); return m.group(1),int(m.group(2)),int(m.group(3))
STR=['len0','len1','astral','nonascii','lead space','trail space','trail bs','quote',"has','","has'%'","has'{'","has'\\n'","has'\\t'","has'/'","has'\\\\'","has'='","has':'","has';'",'digits','upper','2sp','rep']
for s in sorted(S,key=key):
    if not s.startswith(sys.argv[1]+':'): continue
    f=S[s]
    bits=sorted(int(x[1:]) for x in f if re.match(r'b\d+$',x))
    if bits:
        # ranges
        r=[];
        for b in bits:
            if r and r[-1][1]==b-1: r[-1][1]=b
            else: r.append([b,b])
        extra=[x for x in f if not re.match(r'b\d+$',x) and x not in('odd','even','pow2')]
        print(s,'| bits',','.join('%d-%d'%tuple(x) for x in r),'|',' '.join(sorted(extra)))
    elif any(x.startswith('len') for x in f) and any(x in f for x in STR[2:]):
        ml=max([int(x.split('^')[1]) for x in f if x.startswith('len2^')] or [0])
        miss=[x for x in STR if x not in f]
        print(s,'| str max2^%d'%ml,'| missing',miss)
    else:
        print(s,'|',' '.join(sorted(f))[:200])
