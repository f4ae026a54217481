import os, collections
seen = {}
pid = None
f = None
last = {}
LIM = set()
def emit(site, ft):
    global pid, f
    if pid != os.getpid():
        pid = os.getpid(); f = open('/tmp/w/vc/out/%s.%d' % (os.environ.get('VC','x'), pid), 'a', buffering=1)
    f.write('%s\t%s\n' % (site, ft))
def feats(v):
    t = type(v)
    if v is None: return ('None',)
    if t is bool: return (str(v),)
    if isinstance(v, int):
        if v < 0: return ('neg', 'neg%d' % ((v.bit_length()+7)//8))
        b = v.bit_length()
        out = ['b%d' % b, 'odd' if v & 1 else 'even']
        if v and v & (v-1) == 0: out.append('pow2')
        if b in (8,16,31,32,63,64) and v == (1 << b)-1: out.append('ones%d' % b)
        if b > 8 and v & 0xff == 0: out.append('low8zero')
        if b > 16 and v & 0xffff == 0: out.append('low16zero')
        if b > 32 and v & 0xffffffff == 0: out.append('low32zero')
        return out
    if t is str:
        n = len(v); out = ['len%d' % n if n < 3 else 'len2^%d' % n.bit_length()]
        if v:
            m = max(v)
            if m > '\uffff': out.append('astral')
            elif m > '\x7f': out.append('nonascii')
            if '\ufffd' in v: out.append('fffd')
            if v[0] == ' ': out.append('lead space')
            if v[-1] == ' ': out.append('trail space')
            if v[-1] == '\\': out.append('trail bs')
            if v[0] == '"' or v[-1] == '"': out.append('quote')
            for c in ',%{}\n\r\t;:=/\\"\x01\ufeff\'':
                if c in v: out.append('has%r' % c)
            if v.isdigit(): out.append('digits')
            if v != v.lower(): out.append('upper')
            if '  ' in v: out.append('2sp')
        return out
    if t is bytes:
        n = len(v); return ['len%d' % n if n < 5 else 'len2^%d' % n.bit_length(), 'odd' if n & 1 else 'even'] + (['zeros'] if n and not any(v) else []) + (['hi'] if n and v[-1] > 127 else [])
    if isinstance(v, (list, tuple, dict)):
        n = len(v); return ['n%d' % n if n < 4 else 'n2^%d' % n.bit_length()]
    return ('T' + t.__name__,)
def rec(site, v):
    s = seen.get(site)
    if s is None: s = seen[site] = set()
    for ft in feats(v):
        if ft not in s:
            s.add(ft); emit(site, ft)
    if 'rep' not in s and type(v) in (int, str, bytes) and v:
        if last.get(site) == v: s.add('rep'); emit(site, 'rep')
        last[site] = v
    return v
