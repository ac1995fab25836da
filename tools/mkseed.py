#!/usr/bin/env python3
"""mkseed.py ID PROPERTY SPEC.py : SPEC defines edits [(file, old, new)], demo (C++ text), tus [repo sources], needs, breaks"""
import json
import os
import runpy
import subprocess
import sys
import shutil

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("REPO", "/repo")
SH = '''#!/bin/bash
# builds a small program from the working tree and runs it; exit 0: behaves as specified
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_plm=isolated OMPI_MCA_btl=self,vader OMP_NUM_THREADS=1
INC="-I/usr/include/trilinos -I/usr/include/hdf5/openmpi -I/usr/include/scotch -I$R -I$R/src"
for d in core io io/discretization io/mesh_input io/mesh_input/quick_grid io/mesh_output io/bond_volume io/bond_volume/quick_grid io/utilities io/pdneigh contact materials damage compute; do INC="$INC -I$R/src/$d"; done
INC="$INC -DUSE_YAML -DNDEBUG -I/usr/lib/x86_64-linux-gnu/openmpi/include -I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"
LIBS="-ltrilinos_epetraext -ltrilinos_epetra -ltrilinos_pamgen_extras -ltrilinos_pamgen -ltrilinos_teuchosparameterlist -ltrilinos_teuchosparser -ltrilinos_teuchoscore -ltrilinos_teuchosnumerics -ltrilinos_teuchoscomm -llapack -lblas -L/usr/lib/x86_64-linux-gnu/openmpi/lib -lmpi_cxx -lmpi -Wl,--unresolved-symbols=ignore-all"
O=""
i=0
for s in %s; do i=$((i+1)); g++ -std=c++17 -O1 -w $INC -c "$R/src/$s" -o "$T/o$i.o" & O="$O $T/o$i.o"; done
g++ -std=c++17 -O1 -w $INC -I"$D" -c "$D/demo.cpp" -o "$T/demo.o" || { wait; exit 3; }
wait
g++ "$T/demo.o" $O -o "$T/demo" $LIBS || exit 3
cd "$T" && timeout 120 ./demo
'''
CORE = ["core/Peridigm_DataManager.cpp", "core/Peridigm_State.cpp", "core/Peridigm_Field.cpp", "core/Peridigm_InfluenceFunction.cpp", "core/Peridigm_Enums.cpp"]


def main():
    sid, prop, spec = sys.argv[1:4]
    s = runpy.run_path(spec)
    d = os.path.join(V, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(R, f)
            t = open(p).read()
            n = t.count(old)
            if n != 1:
                sys.exit("%s: %d occurrences of %r" % (f, n, old))
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.check_output(["git", "-C", R, "diff"]).decode()
    finally:
        subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.cpp"), "w").write(s["demo"].lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(SH % " ".join(list(s["tus"]) + ([] if s.get("nocore") else CORE)))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    shutil.copy(os.path.join(V, "tools/seedlib/harness.h"), os.path.join(d, "harness.h"))
    json.dump(dict(property=prop, needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)


main()
