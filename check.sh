#!/bin/bash
# ./check.sh <property> quick|thorough   |   ./check.sh replay <property> <file>
cd "$(dirname "$0")"
exec python3-vt -m checks.run "$@"
