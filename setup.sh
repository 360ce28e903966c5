#!/bin/bash
# builds the framework (irdump, irq, astq) from the committed sources
set -e
cd "$(dirname "$0")"
python3 -c "
import sys; sys.path.insert(0,'engine')
import vp; print(vp.irdump_bin(), vp.irdump_bin('irq'), vp.irdump_bin('astq'))"
