import struct
d=open('/usr/lib/x86_64-linux-gnu/libicudata.so.74.2','rb').read()
i=0
while True:
    i=d.find(b'CmnD',i)
    if i<0: break
    o=i-12
    hl,m1,m2=struct.unpack('<HBB',d[o:o+4])
    print(hex(i),hl,hex(m1),hex(m2))
    if m1==0xda and m2==0x27:
        base=o; break
    i+=1
t=base+hl
n,=struct.unpack('<I',d[t:t+4]); print('toc',n)
ents=[]
for k in range(n):
    a,b=struct.unpack('<II',d[t+4+8*k:t+12+8*k])
    nm=d[t+a:d.index(0,t+a)].decode()
    ents.append((nm,b))
for (nm,b),(nm2,b2) in zip(ents,ents[1:]+[('',None)]):
    if nm.split('/')[-1] in('nfkc.nrm','nfkc_cf.nrm','ulayout.icu','unames.icu','nfc.nrm','uts46.nrm','pnames.icu','uprops.icu','ucase.icu'):
        print(nm,b,b2-b); open(nm.split('/')[-1],'wb').write(d[t+b:t+b2])
