# The checks build everything they need themselves; this only verifies that the tools are there.
import shutil, sys
missing = [t for t in ('g++', 'valgrind') if not shutil.which(t)]
if missing: print('missing: ' + ', '.join(missing)); sys.exit(1)
print('ok')
