"""dev: conf/reset.txt from the learn runs left in /tmp/ag (tools/allgen.py learn 200 c12.cc)"""
import glob, os, re
o = []
for f in sorted(glob.glob("/tmp/ag/*.out")):
    t = os.path.basename(f)[:-4]
    for l in open(f):
        m = re.match(r"STAT\tFIXED (\S+)\t(-?\d+)", l)
        if m and not re.match(r"PC\d$", m.group(1)): o.append("%s %s %x" % (t, m.group(1), int(m.group(2)) & 0xffffffff))
open("/verif/conf/reset.txt", "w").write("\n".join(o) + "\n")
print(len(o))
