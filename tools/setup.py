"""setup: nothing to build; checks that the interpreters the checks use are there"""
import subprocess, sys
import z3
subprocess.run(['/opt/venv/bin/python', '-c', 'import sys; sys.path.insert(0, "/repo"); sys.dont_write_bytecode = True; import meshiphi, pandas, shapely, xarray'], check=True)
print('ok', z3.get_version_string())
