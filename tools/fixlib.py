import re
def indent(l): return len(l)-len(l.lstrip('\t '))
def apply(s,old,new):
    """replaces a block of lines, matched ignoring indentation; the replacement keeps the file's indentation"""
    L=s.split('\n'); o=old.split('\n'); n=new.split('\n') if new else []
    k=[x.strip() for x in o]
    hits=[i for i in range(len(L)-len(o)+1) if [x.strip() for x in L[i:i+len(o)]]==k]
    if len(hits)!=1:
        print('FOUND',len(hits),'TIMES:',old[:120]); return None
    i=hits[0]; d=indent(L[i])-indent(o[0])
    def sh(x):
        if not x.strip() or x.startswith('#'): return x.strip()
        w=max(0,indent(x)+d); return '\t'*w+x.lstrip('\t ')
    # keep common leading and trailing lines as they are
    a=0
    while a<min(len(o),len(n)) and o[a].strip()==n[a].strip(): a+=1
    b=0
    while b<min(len(o),len(n))-a and o[-1-b].strip()==n[-1-b].strip(): b+=1
    return '\n'.join(L[:i+a]+[sh(x) for x in n[a:len(n)-b]]+L[i+len(o)-b:])
