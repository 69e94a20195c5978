#!/bin/bash
# Run one check with all tags counted: probe.sh C02 [seed] [cases]
cd "$(dirname "$0")/.."
ALLTAGS=1 VERIF_SEED=${2:-1} python3 harness/run.py $1 ${3:+--cases $3} 2>&1 | cut -c1-${W:-900} | tail -${T:-25}
