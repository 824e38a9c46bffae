"""Nothing to build ahead: every check lowers and compiles /repo itself.  Fails early when a tool is missing."""
import shutil, subprocess, sys
for t in ('cargo', 'python3-vt'):
    if not shutil.which(t):
        sys.exit('missing: ' + t)
subprocess.run(['cargo', '+nightly', '--version'], check=True)
subprocess.run(['python3-vt', '-c', 'import z3; print("z3", z3.get_version_string())'], check=True)
