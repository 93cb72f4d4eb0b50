# Newest .bc per crate name in the deps directory (cargo leaves old ones behind).
import sys, os, glob
best = {}
for f in glob.glob(sys.argv[1] + '/*.bc'):
    name = os.path.basename(f)[:-3].rsplit('-', 1)[0]
    if name not in best or os.path.getmtime(f) > os.path.getmtime(best[name]):
        best[name] = f
print(' '.join(best.values()))
