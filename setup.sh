#!/bin/bash
# builds the native reader (plain and sanitized) from /repo's working tree
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
mkdir -p build evidence
/usr/bin/python3 vf/extbuild.py plain >/dev/null || exit 1
/usr/bin/python3 vf/extbuild.py asan >/dev/null || exit 1
exit 0
