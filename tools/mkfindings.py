#!/usr/bin/env python3
"""known_findings.txt: lines 'fixed:' from the fix commits of /repo, lines 'known:' from conf/known.txt"""
import subprocess, re
P = {}
def m(pid, s):
    for h in s.split(): P[h] = pid
m('I02','86f766f e855c42 0fd3614 498c085 5f94e89 73f2ba0 cfb689e 4b80ddb')
m('I01','76f4bbf 70cea48 0494675')
m('I03','194473b a433279 30962f3 0f709f3 e3414b3 2042112 1d9909e 9288301 24c70fb 006abf2 fad8058 f762403 5d27774 9c9c603')
m('C01','a8dd623 7cdca18 ba1d481 a0b77c2 a56c967 9f2a9ed db71bad 4d667ed 24067df f09bdb3 cc0c26b 356de83')
m('C11','2732abd acaa020 e56ccc6')
m('C04','7c8ebfd d174215 b6a76b9 af0d222')
m('C03','0f3de30 7cb7b7c ea2c3c6 005cff8 407da78 f94da08 b0a73dc')
m('C10C','5d9d807 4252946 4e0b638 f1df695 f843124 7e7d86e')
m('C10D','b9ae6f0 4252946 dbffadb 7d86e7a')
m('C10B','4ab18ad')
m('C10A','c5d4d25')
m('C02','da5c35f 8abaf1b f9beca2 526e5bf 3cee9bc 6bb54f8 c2ea3be b368f28 67ee24c f63fbea')
m('C06','2f229cb de4a8b5 74aad3f d6d0cf8')
m('C07','226c172 a7ed9f0 2898809 4e0554f c9b4e29 3a57b58 24b0172 fae6d4e 5b1fe93')
m('C08','dcf9bf1')
m('C10D','814645e f55e653 4f77986')
m('I04','d8d1d6e')
# commits the list above does not name
G = [(r'mos6502',"I04"),(r'disassembl|length|entries|list of|ED 00|68HC12|HuC',"C09"),(r'.*',"C04")]
o = ["# known: property=<id> key=<key> <what>      a genuine defect that is not repaired; the check reports it as KNOWN-FINDING",
     "# fixed: property=<id> <commit> <what failed>  a genuine defect repaired in /repo; suppresses nothing"]
try:
    o += [l.rstrip() for l in open('/verif/conf/known.txt') if l.strip() and l[0] != '#']
except FileNotFoundError: pass
log = subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'],text=True).splitlines()
extra = {}
try:
    for l in open('/verif/conf/fixed_map.txt'):
        a = l.split()
        for h in a[1:]: extra[h] = a[0]
except FileNotFoundError: pass
for l in log:
    h, s = l.split(' ',1)
    if not s.startswith('fix: '): continue
    s = s[5:]
    p = extra.get(h) or P.get(h) or next(i for r,i in G if re.search(r,s))
    o.append(f"fixed: property={p} {h} {s}")
open('/verif/known_findings.txt','w').write("\n".join(o)+"\n")
