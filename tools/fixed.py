"""Rewrites the list of repairs in known_findings.json."""
import subprocess, json
m="""e3bc964 C13
9b44b28 C13
93c1a9a C13
42d0ad7 C15
8871990 C15
12846c0 C16
8f8e65d C17
6b4912b C20
78dac10 C19
dfbc243 C19
b16ddb8 C19
5a476c5 C19
0dc193b C17
3d465b0 C18
35c4673 C19
39df5c4 C19
6406c6a C20
a933020 C20
535b4c7 C20
56e08ac C21
0389c1b C21
ec1e740 C21
511b7ae C21
815e680 C22
29a8176 C22
7c9f2ec C24
069e1bc C27
1ab6d04 C27
20fee26 C27
29b54f6 C27
5a76421 C01
124e9dd C01
6ef1c68 C01
7e10bc7 C02
72a5320 C02
dc52f10 C02
388db1e C03
296c465 C03
fe708d7 C03
266c3ac C03
da1e704 C07
25d67f4 C08
c102a1f C08
1f15240 C08
4bf57d1 C12
302649a C12
2e86f5d C30
3d7267a C29
fc4adea C29
8b48b2e C22
e6904da C31
4b779b8 C09
b2cde1b C09
ff1cbb5 C04
ff46ea9 C04
cf6111d C06
da8271f C04
245bf32 C06
2c93e6c C06
d659cc7 C06
dd7621b C06
25e8296 C10
91746a1 C10
ebbc012 C10
564d7cb C10
1ef176a C11
6622d4d C11
90da1ee C11
ee80ef3 C11
d905678 C28
61a4759 C19
bd83a73 C26
6507fb9 C25
f345c60 C25
ebe740b C25
fa072e2 C31
23e9d16 C31
2bc218f C33
6c69be5 C33
e9556d6 C33
a30e627 C33
b0252e6 C34
c2601f7 C34
e64aad8 C34
38586f4 C34
e936876 C34
2750399 C34
1438385 C35
0adb57e C35
2a4339b C36
8569844 C37
0bce661 C38
14fc25c C38
4f62b61 C39
7e9c38e C39
7f5144b C11
3b2098e C11
9747cea C40
603f567 C41
2ebf86b C41
fbc946e C41
a13e729 C41
625f3f9 C41
8d0ce79 C41
2409e08 C41
f5e6bdc C41
7ebb7c1 C41
1319e40 C41
c4bf7ee C41
8b691d3 C41
e1d78a4 C42
ee35918 C42
4a93c37 C42
4fafca0 C42
9f6a287 C42
e3f8db4 C43
fbaff71 C02
4194a55 C43
1f2a444 C43
06e14af C44"""
m=dict(l.split() for l in m.split("\n"))
log=subprocess.run("git -C /repo log --reverse --format='%h %s' 341c24b..HEAD",shell=True,capture_output=True,text=True).stdout.split("\n")
fixed=[]
for l in log:
    if not l: continue
    h,s=l.split(" ",1)
    fixed.append("fixed: property=%s %s %s"%(m[h],h,s.replace("fix: ","",1)))
f='/verif/known_findings.json'
k=json.load(open(f)); k["fixed"]=fixed; json.dump(k,open(f,'w'),indent=1)
print(len(fixed))
