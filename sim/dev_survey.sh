#!/bin/bash
# development aid: parallel survey.  dev_survey.sh PROP SEED N [variant]
V=${4:-plain}; D=$(dirname "$0")/../build; N=$3
for w in 0 1 2 3 4 5 6 7; do
  a=$((N*w/8)); b=$((N*(w+1)/8))
  $D/sim-$V survey $1 $2 $a $b > /tmp/survey.$1.$w 2>&1 &
done; wait
python3 - "$1" <<'P'
import sys,re,collections
p=sys.argv[1]; h={}; c=collections.Counter()
for w in range(8):
    for l in open(f'/tmp/survey.{p}.{w}',errors='replace'):
        m=re.match(r'\s*(\d+)  (.*?)\s+first: (.*)',l)
        if m:
            e=h.setdefault(m[2],[0,m[3]]); e[0]+=int(m[1])
        for k,v in re.findall(r'(\S+)=(\d+)(?=\s)',l):
            if not m: c[k]+=int(v)
for k,e in sorted(h.items(),key=lambda x:-x[1][0])[:40]: print('%6d %-50s %s'%(e[0],k[:70],e[1][:190]))
print(dict(c))
P
