"""setup: nothing to build; verify that the tools the checks need are there."""
import shutil, subprocess, sys, os
ok = True
for t in ('clang++-18', 'clang++'):
    if shutil.which(t):
        break
else:
    print('clang++ missing'); ok = False
if not os.path.exists('/usr/lib/llvm-18/bin/opt'):
    print('opt missing'); ok = False
try:
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import irload
except Exception as e:
    print('cannot load the engine:', e); ok = False
print('setup', 'ok' if ok else 'failed')
sys.exit(0 if ok else 1)
