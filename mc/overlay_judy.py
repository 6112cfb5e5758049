# executed by overlay.py: shadow accesses in go-judy (C code is invisible to the race detector)
for f, T, muts in [("judyl.go","JudyL",{"Insert","Delete","Free"}), ("judy1.go","Judy1",{"Set","Unset","Free"})]:
    s = open(judy.src+"/"+f).read()
    a = "type %s struct {\n\tarray unsafe.Pointer\n}" % T
    if s.count(a)!=1: sys.exit("overlay: judy "+T)
    s = s.replace(a, "type %s struct {\n\tarray unsafe.Pointer\n\tshadow uint64\n}" % T)
    s, n = re.subn(r"(?m)^func \(j \*%s\) (()(\w+))\(.*\{$" % T, lambda m: m.group(0)+"\n\t"+("j.shadow++" if m.group(1) in muts else "verifShadow(j.shadow)"), s)
    if n < 10: sys.exit("overlay: judy funcs")
    judy.put(f, s)
judy.put("verif_hook.go", "package judy\n\n//go:noinline\nfunc verifShadow(uint64) {}\n")
