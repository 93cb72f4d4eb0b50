# Keeps hashing functions out of line so that the executor can replace them by
# a constant hash (sound: std and indexmap maps must be correct for any hash).
import sys, re
out = open(sys.argv[2], 'w')
for l in open(sys.argv[1]):
    if l.startswith('define') and ('4core4hash6Hasher' in l or 'hash_one' in l):
        l = re.sub(r'(\)[^()]*?) (#\d+)', r'\1 noinline \2', l, count=1) if ' noinline' not in l else l
    out.write(l)
