#!/usr/bin/env python3
"""Generates bridge/B_<proto>.java from spec/<proto>.layout: code that builds real message objects from model values
through the public setters and reads them back through the public getters. Output is committed."""
import os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JT={'i8':('byte','Byte'),'i16':('short','Short'),'i32':('int','Integer'),'i64':('long','Long'),'f32':('float','Float'),'f64':('double','Double')}
for p in ['sse','szse','bjse','risk','sample']:
    msgs=[];cur=None;pkg=None
    for l in open(f'{V}/spec/{p}.layout'):
        if l.startswith('message '):
            n=l.split()[1]; pkg,short=n.rsplit('.',1); cur=(n,short,[]); msgs.append(cur)
        elif ' : ' in l:
            a,b=l.strip().split(' : '); cur[2].append((a,b))
    o=['// Generated by tools/gen_bridge.py from spec/%s.layout'%p,'package vbridge;','import vsim.*;','import com.finproto.codec.BinaryCodec;','@SuppressWarnings({"unchecked","rawtypes"})',f'public final class B_{p} {{',
       '  public static MsgBridge get(int i) {','    switch (i) {']
    for i,(n,s,f) in enumerate(msgs): o.append(f'      case {i}: return new M_{s.replace("$","_")}();')
    o+=['      default: throw new IllegalArgumentException();','    }','  }']
    for n,s,fs in msgs:
        J=n.replace('$','.')
        o.append(f'  static final class M_{s.replace("$","_")} implements MsgBridge {{')
        o.append(f'    public Object fresh() {{ return new {J}(); }}')
        o.append('    public void fill(Object o_, Object[] v, Conv c) {')
        o.append(f'      {J} m = ({J}) o_;')
        for i,(f,t) in enumerate(fs):
            k=t.split(); cap=f[0].upper()+f[1:]
            b=k[1] if k[0] in('bodylen','checksum') else k[0]
            base='i8' if b=='i8' else b[:3]
            if base in JT: e=f'({JT[base][0]}) ({JT[base][1]}) v[{i}]'
            elif k[0] in('fstr','dstr'): e=f'(String) v[{i}]'
            elif k[0]=='list': e=f'(java.util.List) c.toRealList(v[{i}])'
            elif k[0]=='poly': e=f'(BinaryCodec) c.toReal(v[{i}])'
            elif k[0]=='msg': e=f'({pkg}.{k[1].replace("$",".")}) c.toReal(v[{i}])'
            o.append(f'      m.set{cap}({e});')
        o.append('    }')
        o.append('    public Object[] read(Object o_, Conv c) {')
        o.append(f'      {J} m = ({J}) o_;')
        o.append(f'      Object[] v = new Object[{len(fs)}];')
        for i,(f,t) in enumerate(fs):
            k=t.split(); cap=f[0].upper()+f[1:]
            if k[0]=='list': e=f'c.toModelList((java.util.List) m.get{cap}())'
            elif k[0] in('poly','msg'): e=f'c.toModel(m.get{cap}())'
            else: e=f'm.get{cap}()'
            o.append(f'      v[{i}] = {e};')
        o+=['      return v;','    }']
        o.append(f'    public void encode(Object o_, io.netty.buffer.ByteBuf b) {{ (({J}) o_).encode(b); }}')
        o.append(f'    public void decode(Object o_, io.netty.buffer.ByteBuf b) {{ (({J}) o_).decode(b); }}')
        o.append('  }')
    o.append('}')
    open(f'{V}/bridge/B_{p}.java','w').write('\n'.join(o)+'\n')
