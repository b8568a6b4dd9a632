"""Development aid: how far the pictures of the sample textures, decoded from all formats, are from each other,
in all and per block mode.  They were made from one picture (in two tool chains), so a mode that is misread, by the
code and by the specification alike, shows as a large error.  No check uses it."""
import sys,json,struct,os
sys.dont_write_bytecode=True
sys.path.insert(0,'/verif/lib')
import numpy as np, vt
from vt import Vec
S="/repo/resources/tests/textures/"
T=[l.strip().split(", ") for l in os.popen("grep -n 'test_format(' -A1 /repo/tests/test.rs | grep -o '\"[A-Za-z0-9_]*\", \"[a-z0-9]*\", [a-z0-9_]*'")]
vecs=[];names=[]
for n,e,f in T:
    n,e=n.strip('"'),e.strip('"'); f=f.replace('decode_','')
    d=open(S+n+'.'+e,'rb').read()
    if e=='ktx2':
        w,h=struct.unpack('<II',d[20:28]); sc=struct.unpack('<I',d[44:48])[0]
        o,l=struct.unpack('<QQ',d[80:96]); 
        if sc: print(n,'supercompressed',sc)
        d=d[o:o+l]
    elif e=='dds':
        h,w=struct.unpack('<II',d[12:20]); d=d[128:]
    else:
        w=h=512; import struct as s; w,h=struct.unpack('>HH',d[12:16])
    vecs.append(Vec(f,d,w,h)); names.append(n)
b=vt.build(); 
p=vt.record(b,vecs,'/tmp','psnr')
im={}
for i,l in vt.read_lines(p):
    r=json.loads(l); 
    if r['r']!='ok': print(names[i],r['r'],r['e']); continue
    a=np.array(r['p'],dtype=np.int64)&0xffffffff
    im[names[i]]=np.stack([a>>16&255,a>>8&255,a&255,a>>24],-1).reshape(r['h'],r['w'],4)
ref=im['BC7'].astype(float)
for n,a in im.items():
    if a.shape!=ref.shape: print(n,a.shape); continue
    e=(a-ref)**2
    m=e.reshape(a.shape[0]//4,4,a.shape[1]//4,4,4).mean((1,3))
    print(f"{n:24s}", *[f"{'RGBA'[k]} {10*np.log10(255**2/max(e[...,k].mean(),1e-9)):5.1f} max {e[...,k].max()**.5:4.0f}" for k in range(4)])
print("---- vs ASTC_4x4")
ref=im['ASTC_4x4'].astype(float)
for n in ['BC1','BC1A','BC2','BC3','BC4','BC5','ETC2_RGB','ETC2_RGBA','ETC2_RGB_A1','EAC_R11','EAC_RG11','PVRTCI_2bpp_RGB','PVRTCI_2bpp_RGBA','PVRTCI_4bpp_RGB','PVRTCI_4bpp_RGBA','ASTC_5x5','ASTC_8x8']:
    e=(im[n]-ref)**2
    op=ref[...,3]>200
    print(f"{n:24s}", *[f"{'RGBA'[k]} {10*np.log10(255**2/max(e[...,k].mean(),1e-9)):5.1f} opaque {10*np.log10(255**2/max(e[...,k][op].mean(),1e-9)):5.1f}" for k in range(4)])
def modes(n,refn,modef,nb=16):
    d=[v for v,m in zip(vecs,names) if m==n][0].d
    ref=im[refn].astype(float); e=((im[n]-ref)**2)[...,:3].mean(-1)
    e=e.reshape(e.shape[0]//4,4,e.shape[1]//4,4).mean((1,3)).reshape(-1)
    from collections import defaultdict
    g=defaultdict(list)
    for k in range(len(e)): g[modef(d[nb*k:nb*k+nb])].append(e[k])
    print(n,{str(m):(len(x),round(float(np.mean(x)),1),round(float(np.median(x)),1)) for m,x in sorted(g.items(),key=str)})
modes('BC6H','BC7',lambda b: b[0]&3 if b[0]&3<2 else b[0]&31)
def etcm(b):
    if not b[3]&2: return 'ind'
    def s(x): return (x>>3)+((x&7)^4)-4
    for q,m in ((0,'T'),(1,'H'),(2,'P')):
        if not 0<=s(b[q])<=31: return m
    return 'diff'
modes('ETC1_RGB','BC7',etcm,8); modes('ETC2_RGB','ASTC_4x4',etcm,8); modes('ETC2_RGBA','ASTC_4x4',lambda b:etcm(b[8:]),16)
def a1(b):
    return ('o' if b[3]&2 else 't')+etcm(b[:3]+bytes([b[3]|2])+b[4:])
modes('ETC2_RGB_A1','ASTC_4x4',a1,8)
modes('BC7','ATC_RGB',lambda b:(b[0]&-b[0]).bit_length()-1)
modes('ASTC_4x4','BC3',lambda b:(b[1]>>3&3, ('void' if (b[0]|b[1]<<8)&0x1ff==0x1fc else (b[0]|b[1]<<8)>>10&1), (b[1]>>5|b[2]<<3)&15 if (b[1]>>3&3)==0 else 'm'))
modes('ATC_RGB','BC7',lambda b:b[1]>>7,8)
