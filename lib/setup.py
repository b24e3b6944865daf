"""Checks that the tools are there and that the harness and the specification
are in order.  Builds land in /verif/target, which git ignores."""
import core, glob, os, subprocess, sys

core.build_harness()
bad = 0
for f in sorted(glob.glob(os.path.join(core.SPEC, "*.tla"))):
    r = subprocess.run(["java", "-Djava.io.tmpdir=" + core.scratch(), "-cp", core.JARS, "tla2sany.SANY", f],
                       cwd=core.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(f, r.stdout[-2000:])
        bad = 1
sys.exit(bad)
