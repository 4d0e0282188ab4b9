import sys,re
pid, fn, opts, note = sys.argv[1:5]
p='/verif/lib/registry.py'; s=open(p).read()
s=s.replace('CHECKS = {\n','CHECKS = {\n    "%s": (%s, "exploration", %s),\n'%(pid,fn,opts),1).replace('NOTES = {\n','NOTES = {\n    "%s": (_T, "%s"),\n'%(pid,note),1)
open(p,'w').write(s)
