#!/bin/bash
# tools/plant.sh ID [notest]: confirm a planted bug in a scratch copy (patch applies, builds, stable tests pass, demo discriminates)
ID=$1; S=/verif/seeded/$ID; W=/tmp/pb/$ID; mkdir -p /tmp/pb; rm -rf "/tmp/pb/$ID"; cp -a /repo "/tmp/pb/$ID"
. /tmp/w/env.sh 2>/dev/null; export OMPI_MCA_ess_singleton_isolated=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 HOME=/root
cp -r $S /tmp/pb/$ID.demo; rm -f /tmp/pb/$ID.demo/patch.diff /tmp/pb/$ID.demo/meta.json
(cd /repo && timeout 300 bash /tmp/pb/$ID.demo/demo.sh >/tmp/pb/$ID.clean 2>&1; echo "$ID demo on clean: $?")
cd $W && git apply $S/patch.diff || { echo "$ID PATCH FAILS"; exit 1; }
export PYTHONPATH=$W
(timeout 300 bash /tmp/pb/$ID.demo/demo.sh >/tmp/pb/$ID.bug 2>&1; echo "$ID demo on bug: $?")
/opt/venv/bin/python -c "import gw_eccentricity as g, pkgutil, importlib; assert g.__file__.startswith('$W'), g.__file__
for m in pkgutil.walk_packages(g.__path__, 'gw_eccentricity.'): importlib.import_module(m.name)" >/dev/null 2>&1 || echo "$ID BUILD FAILS"
if [ "$2" != notest ]; then
export PYTHON_JULIAPKG_OFFLINE=yes
/opt/venv/bin/python -m pytest -q -p no:cacheprovider -n ${N:-4} --dist worksteal --timeout=600 --ignore=test/test_nr_precessing.py --ignore=test/test_example_notebooks.py -o junit_family=xunit2 --junitxml=/tmp/pb/$ID.xml test > /tmp/pb/$ID.test 2>&1
/usr/bin/python3 /opt/vp/results.py /tmp/pb/$ID.res "junit:/tmp/pb/$ID.xml" >/dev/null 2>&1
echo "$ID tests: $(tail -1 /tmp/pb/$ID.test)"
fi
rm -rf "/tmp/pb/$ID" "/tmp/pb/$ID.demo"
