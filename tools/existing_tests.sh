#!/bin/bash
# existing_tests.sh TREE PACKAGE: the repository's own tests that can run offline (with stand-ins)
R=$1; S=$(mktemp -d); trap 'rm -rf "$S"' EXIT
cp -r /verif/harness/stub/ament_index_python /verif/tools/stubs/* "$S"/
export VP_REPO=$R PYTHONPATH=$S:$R/launch:$R/launch_xml:$R/launch_yaml:$R/launch_testing:$R/launch_pytest
export ROS_LOG_DIR=$S/log PYTHONDONTWRITEBYTECODE=1
mkdir -p "$S/log"
cd "$R/$2" && timeout 800 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:warnings \
  $(ls test/test_copyright.py test/test_flake8.py test/test_pep257.py test/test_xmllint.py test/*/test_flake8.py test/*/test_copyright.py test/*/test_pep257.py test/test_mypy.py 2>/dev/null | sed 's/^/--ignore=/') \
  --timeout=120 -rfE test 2>&1 | tail -60
