#!/bin/bash
# development helper: run one harness:  run.sh <dir> [ideal|real]
. /opt/vp/env.sh
exec python3 /verif/vf.py harness "$@"
