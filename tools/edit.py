import re,sys
class Ed:
    def __init__(s,f,start,end):
        s.p='/repo/include/stdex/'+f; s.b=open(s.p,newline='').read()
        s.i=s.b.index(start); s.j=s.b.index(end,s.i); s.h=s.b[s.i:s.j]
    def rep(s,a,b,n=1):
        al=[l.strip() for l in a.strip('\n').split('\n')]
        L=s.h.split('\n'); k=0; c=0
        while k<=len(L)-len(al):
            if [x.strip() for x in L[k:k+len(al)]]==al:
                ind=re.match(r'\s*',L[k]).group()
                bl=b.strip('\n').split('\n')
                nl=[(ind+x) if x.strip() and not x.startswith('#') else x for x in bl]
                L[k:k+len(al)]=nl; k+=len(nl); c+=1
            else: k+=1
        assert c==n,(a,c)
        s.h='\n'.join(L)
    def save(s):
        open(s.p,'w',newline='').write(s.b[:s.i]+s.h+s.b[s.j:])
