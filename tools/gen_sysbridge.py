#!/usr/bin/env python3
"""Generates the registry dispatch part of bridge/Sys.java."""
import os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SS='com.finproto.sse.bin.messages.';SZ='com.finproto.szse.bin.messages.';BJ='com.finproto.bjse.trade.messages.';RC='com.finproto.risk.bin.messages.';SA='com.finproto.sample.messages.'
F=[(SS+'SseBinary','BodyMessageFactory','Integer',True),(SZ+'SzseBinary','BodyMessageFactory','Integer',False),(BJ+'BjseBinary','BodyMessageFactory','Integer',False),(RC+'RcBinary','BodyMessageFactory','Integer',False),(SA+'RootPacket','PayloadMessageFactory','Short',False)]
for c in ['ExecutionReport','NewOrder','TradeCaptureConfirm','TradeCaptureReportAck','QuoteStatusReport','QuoteResponse','Quote','AllegeQuote','ExecutionConfirm','TradeCaptureReport']: F.append((BJ+c,'ApplExtendMessageFactory','String',False))
for c in ['ExecutionReport','NewOrder','ExecutionConfirm']: F.append((SZ+c,'ApplExtendMessageFactory','String',False))
def sw(fn):
    o=['    switch (owner) {']
    for c,f,k,cls in F: o.append(f'      case "{c}": '+fn(c,f,k,cls))
    o.append('      default: throw new IllegalStateException("no registry " + owner);\n    }')
    return '\n'.join(o)
src=open(V+'/tools/Sys.java.in').read()
src=src.replace('@CREATE@',sw(lambda c,f,k,cls:f'return {c}.{f}.getInstance().create(({k}) key);'))
src=src.replace('@REGISTER@',sw(lambda c,f,k,cls:f'{c}.{f}.getInstance().register({"sample.getClass(), " if cls else ""}({k}) key, () -> (BinaryCodec) s.get()); return;'))
src=src.replace('@REMOVE@',sw(lambda c,f,k,cls:f'return {c}.{f}.getInstance().remove(({k}) key);'))
open(V+'/bridge/Sys.java','w').write(src)
open(V+'/spec/registries.txt','w').write(''.join(f'{c} {k}\n' for c,f,k,cls in F))
