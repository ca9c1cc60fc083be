#!/bin/bash
# tools/plant.sh ID PROPERTY COPY : confirm the change made in COPY (a cp -a of /repo) and keep it in seeded/ID, which has a demo.sh
set -u
ID=$1; W=$3; D=/verif/seeded/$ID
export HOME=/root LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
git -C $W diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "$ID: no change"; exit 1; }
git -C /repo apply --check $D/patch.diff || { echo "$ID: does not apply"; exit 1; }
(cd /repo && bash $D/demo.sh >/tmp/plant.$ID.a 2>&1); a=$?
(cd $W && bash $D/demo.sh >/tmp/plant.$ID.b 2>&1); b=$?
if [ -n "${CPP:-}" ]; then (cd $W && CC=gcc CXX=g++ PROJECTQ_DISABLE_ARCH_NATIVE=1 PROJECTQ_CI_BUILD=1 SETUPTOOLS_SCM_PRETEND_VERSION=0.8.0 /opt/venv/bin/python setup.py build_ext --inplace --force >/tmp/plant.$ID.c 2>&1) || echo nobuild; (cd $W && bash $D/demo.sh >/tmp/plant.$ID.b 2>&1); b=$?; fi
T=$(mktemp -d)
(cd $W && /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --basetemp=$T/t projectq 2>&1 | tail -4 > /tmp/plant.$ID.t)
rm -rf "$T"
echo "$ID: demo unchanged=$a (want 0) changed=$b (want 1); tests: $(tail -1 /tmp/plant.$ID.t)"
