#!/bin/bash
# soak.sh CXX SEED... : run a check at many seeds, print what is not quiet
p=$1; shift
for s in "$@"; do
  VERIF_EVIDENCE=${VERIF_EVIDENCE:-/tmp/soak-ev} /opt/venv/bin/python "$(dirname "$0")/../run.py" check $p --seed $s > /tmp/soak.$p.$s 2>&1
  rc=$?; head -1 /tmp/soak.$p.$s
  [ $rc != 0 ] && { echo "seed $s rc $rc"; cut -c1-900 /tmp/soak.$p.$s | sed -n 2,30p; break; }
done
true
