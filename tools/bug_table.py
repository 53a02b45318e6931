"""Prints the table of planted bugs for DESIGN.md; the list of those first missed is kept here."""
import json,glob,os
FIRST_MISSED={
"c17-nan":"NaN payloads added to generated values","c12-slow-trim":"large damaged messages added","c13-numeric-id":"near-miss identifiers added",
"c16-kept-hash":"objects are hashed before reuse","c06-kept-extension":"setters between decodes added","c08-updated-elements":"parts held while the object decodes again",
"c05-mark":"marks of the caller anywhere in the buffer","c19-cut":"long renderings drawn more often","c08-leak-unknown":"rejected messages added",
"c12-scan":"floods of one kind with ever new identifiers","c15-bom":"texts that mean something to someone","c17-zeros":"texts of one character throughout",
"c02-marked-count":"large groups in every workload","c20-steal":"classes registered under numbers in use","c19-recycled-builder":"groups that are lists of the application's own",
"c10-cross-deadlock":"suppliers that use another registry","c04-int-sum":"megabytes of large bytes","c12-regex":"work of pattern matching counted",
"c12-insert-front":"work compared at N and 4N elements","c19-depth-left":"application bodies that fail to render","c20-super":"subclasses of registered classes",
}
rows=[]
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(d)); i=os.path.basename(os.path.dirname(d))
    rows.append((m['property'],i,m['what_it_breaks'],FIRST_MISSED.get(i)))
print("| bug | what it does | caught by |\n|---|---|---|")
for p,i,w,f in sorted(rows):
    print(f"| {i} | {w} | {p}{' (missed first: '+f+')' if f else ''} |")
