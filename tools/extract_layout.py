#!/usr/bin/env python3
"""One-off: derive a first draft of the wire layout tables (spec/*.layout) from the message classes as
they were at the pinned commit.  The tables are then reviewed and committed; no check runs this script."""
import re,sys,os,glob
REPO='/repo'
MODS=[('sse','sse-bin'),('szse','szse-bin'),('bjse','bjse-bin'),('risk','risk-bin'),('sample','sample-bin')]
W={'writeByte':'i8','writeShort':'i16be','writeShortLE':'i16le','writeInt':'i32be','writeIntLE':'i32le','writeLong':'i64be','writeLongLE':'i64le','writeFloatLE':'f32le','writeDoubleLE':'f64le','writeFloat':'f32be','writeDouble':'f64be'}
R={'readByte':'i8','readShort':'i16be','readShortLE':'i16le','readInt':'i32be','readIntLE':'i32le','readLong':'i64be','readLongLE':'i64le','readFloatLE':'f32le','readDoubleLE':'f64le'}
def join(lines): return re.sub(r'\s+',' ',' '.join(lines))
def classes(src,pkg):
    # yields (name, body) for top-level and nested BinaryCodec classes
    out=[]
    for m in re.finditer(r'public (?:static )?class (\w+) implements BinaryCodec \{',src):
        i=m.end();d=1;j=i
        while d: 
            c=src[j]; d+= (c=='{')-(c=='}'); j+=1
        out.append((m.group(1),m.start(),src[i:j-1]))
    return out
def method(body,name):
    m=re.search(r'public void %s\(ByteBuf byteBuf\) \{'%name,body); i=m.end();d=1;j=i
    while d: d+=(body[j]=='{')-(body[j]=='}'); j+=1
    return join(body[i:j-1].split('\n'))
def fstr(args):
    a=[x.strip() for x in args]
    n=a[0]; pad=' ';left='right'
    if len(a)>1: pad=eval(a[1].replace("'\\0'","'\\x00'")); left='left' if a[2]=='true' else 'right'
    return 'fstr %s pad=%02x trim=%s'%(n,ord(pad),left)
def parse_enc(t):
    out=[];p=0
    fl=r'this\.(\w+)'
    pats=[
     (r'\s*byteBuf\.(write\w+)\(this\.(\w+)\);',lambda m:out.append((m[2],W[m[1]]))),
     (r'\s*writeFixedString\( ?byteBuf, this\.(\w+), ([^;]*?)\);',lambda m:out.append((m[1],fstr(m[2].split(','))))),
     (r'\s*if \(StringUtil\.isNullOrEmpty\(this\.(\w+)\)\) \{ byteBuf\.(\w+)\(0\); \} else \{ byte\[\] bytes = this\.\1\.getBytes\(StandardCharsets\.UTF_8\); byteBuf\.(\w+)\(bytes\.length\); byteBuf\.writeBytes\(bytes\); \}',lambda m:out.append((m[1],'dstr '+W[m[3]]))),
     (r'\s*if \(null == this\.(\w+) \|\| this\.\1\.size\(\) == 0\) \{ byteBuf\.(\w+)\(0\); \} else \{ byteBuf\.(\w+)\(\(\w+\) this\.\1\.size\(\)\); for \(int i = 0; i < this\.\1\.size\(\); i\+\+\) \{ (.*?) \} \}(?= |$)',None),
     (r'\s*(?:if \((?:null != this\.\w+|this\.\w+ != null)\) \{ )?this\.(\w+)\.encode\(byteBuf\);(?: \})?',lambda m:out.append((m[1],'MSG'))),
     (r'\s*int (\w+)Pos = byteBuf\.writerIndex\(\); byteBuf\.(\w+)\(0\); int \w+Start = byteBuf\.writerIndex\(\);',lambda m:out.append((m[1],'bodylen '+W[m[2]]))),
     (r'\s*int \w+End = .*?byteBuf\.set\w+\(\w+, this\.\w+\);',lambda m:None),
     (r'\s*ChecksumService<ByteBuf, Integer> checksumService = ChecksumServiceFactory\.getInstance\(\)\.getChecksumService\("(\w+)"\); if .*?\} byteBuf\.(\w+)\(this\.checksum\);',lambda m:out.append(('checksum','checksum %s %s'%(W[m[2]],m[1])))),
    ]
    t=t.strip()
    while p<len(t):
        if not t[p:].strip(): break
        # list first (needs nested braces)
        m=re.match(r'\s*if \(null == this\.(\w+) \|\| this\.\1\.size\(\) == 0\) \{ byteBuf\.(\w+)\(0\); \} else \{ byteBuf\.(\w+)\(\(\w+\) this\.\1\.size\(\)\); for \(int i = 0; i < this\.\1\.size\(\); i\+\+\) \{ ',t[p:])
        if m:
            q=p+m.end();d=1;s=q
            while d: d+=(t[q]=='{')-(t[q]=='}'); q+=1
            inner=t[s:q-1].strip(); 
            r=re.match(r'\s*\}',t[q:]); q+=r.end()
            f=m[1]
            mm=re.match(r'byteBuf\.(write\w+)\(this\.\w+\.get\(i\)\);$',inner)
            if mm: e=W[mm[1]]
            elif (mm:=re.match(r'writeFixedString\( ?byteBuf, this\.\w+\.get\(i\), ([^;]*)\);$',inner)): e=fstr(mm[1].split(','))
            elif re.match(r'this\.\w+\.get\(i\)\.encode\(byteBuf\);$',inner): e='msg ?'
            elif 'isNullOrEmpty' in inner: e='dstr '+W[re.search(r'byteBuf\.(\w+)\(bytes\.length',inner)[1]]
            else: raise Exception(inner)
            out.append((f,'list %s of %s'%(W[m[3]],e))); p=q; continue
        for pat,fn in pats:
            if fn is None: continue
            m=re.match(pat,t[p:])
            if m: fn(m); p+=m.end(); break
        else: raise Exception('ENC? '+t[p:p+300])
    return out
def parse_dec(t):
    out=[];p=0;t=t.strip()
    while p<len(t):
        if not t[p:].strip(): break
        m=re.match(r'\s*this\.(\w+) = byteBuf\.(read\w+)\(\);',t[p:])
        if m: out.append((m[1],R[m[2]])); p+=m.end(); continue
        m=re.match(r'\s*this\.(\w+) = readFixedString\( ?byteBuf, ([^;]*?)\);',t[p:])
        if m: out.append((m[1],fstr(m[2].split(',')))); p+=m.end(); continue
        m=re.match(r'\s*\w+ (\w+)Len = byteBuf\.(\w+)\(\); if \(\w+Len > 0\) \{ this\.\1 = byteBuf ?\.readCharSequence\(\w+, StandardCharsets\.UTF_8\) ?\.toString\(\); \}',t[p:])
        if m: out.append((m[1],'dstr '+R[m[2]])); p+=m.end(); continue
        m=re.match(r'\s*\w+ (\w+)Size = byteBuf\.(\w+)\(\); if \(\w+Size > 0\) \{ this\.\1 = new ArrayList<>\(\); for \(int i = 0; i < \w+Size; i\+\+\) \{ ',t[p:])
        if m:
            q=p+m.end();d=1;s=q
            while d: d+=(t[q]=='{')-(t[q]=='}'); q+=1
            inner=t[s:q-1].strip(); r=re.match(r'\s*\}',t[q:]); q+=r.end()
            if (mm:=re.match(r'this\.\w+\.add\(byteBuf\.(read\w+)\(\)\);$',inner)): e=R[mm[1]]
            elif (mm:=re.match(r'this\.\w+\.add\( ?readFixedString\( ?byteBuf, ([^;]*)\)\);$',inner)): e=fstr(mm[1].split(','))
            elif (mm:=re.match(r'(\w+) \w+ = new \1\(\);',inner)): e='msg '+mm[1]
            elif 'readCharSequence' in inner: e='dstr '+R[re.search(r'byteBuf\.(\w+)\(\)',inner)[1]]
            else: raise Exception(inner)
            out.append((m[1],'list %s of %s'%(R[m[2]],e))); p=q; continue
        m=re.match(r'\s*this\.(\w+) = (?:(\w+)\.getInstance\(\)\.create|(create\w+))\(this\.(\w+)\); this\.\1\.decode\(byteBuf\);',t[p:])
        if m: out.append((m[1],'poly %s'%m[4])); p+=m.end(); continue
        m=re.match(r'\s*if \(null == this\.(\w+)\) \{ this\.\1 = new (\w+)\(\); \} this\.\1\.decode\(byteBuf\);',t[p:])
        if m: out.append((m[1],'msg '+m[2])); p+=m.end(); continue
        raise Exception('DEC? '+t[p:p+300])
    return out
for proto,mod in MODS:
    lines=['# Wire layout of every message of the %s module.'%mod]
    for f in sorted(glob.glob(REPO+'/'+mod+'/src/main/java/**/*.java',recursive=True)):
        src=open(f).read(); pkg=re.search(r'package ([\w.]+);',src)[1]; top=os.path.basename(f)[:-5]
        cl=classes(src,pkg)
        for name,st,body in cl:
            fq=pkg+'.'+top+('' if name==top else '$'+name)
            b=body
            if name==top and len(cl)>1: b=body[:body.find('public static class')]
            e=parse_enc(method(b,'encode')); d=parse_dec(method(b,'decode'))
            assert [x[0] for x in e]==[x[0] for x in d],(fq,e,d)
            lines.append('message %s'%fq)
            disc={}
            for (n,te),(_,td) in zip(e,d):
                if te=='MSG': t=td
                elif te.endswith('msg ?'): assert td.startswith(te[:-1]),(fq,te,td); t=td
                elif te.startswith('bodylen') or te.startswith('checksum'): assert te.split()[1]==td,(fq,te,td); t=te
                else:
                    if te!=td: print('ASYM',fq,n,te,td)
                    t=te
                if ' msg ' in ' '+t:
                    c=t.split()[-1]; t=t[:-len(c)]+(top+'$'+c if any(x[0]==c for x in cl) and c!=top else c)
                lines.append('  %s : %s'%(n,t))
            for m in re.finditer(r'register\(\s*(?:(\w+)\.class, )?(?:\((\w+)\) )?("?[\w.()]+"?), (\w+)::new\)',re.sub(r'\s+',' ',body if name==top else b)):
                k=m[3]
                if 'MessageType.' in k:
                    k=re.search(r'%s\((\d+)\)'%k.split('.')[1],b)[1]
                lines.append('  case %s -> %s'%(k.strip('"'),m[4]))
            for m in re.finditer(r'\.put\(\s*"(\w+)", (\w+)::new\)',re.sub(r'\s+',' ',body if name==top else b)):
                lines.append('  case %s -> %s'%(m[1],m[2]))
    open('/verif/spec/%s.layout'%proto,'w').write('\n'.join(lines)+'\n')
