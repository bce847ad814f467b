#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property on /repo's current source.
cd "$(dirname "$0")" || exit 2
V=$PWD
bash "$V/setup.sh" >&2 || exit 2
. "$V/env.sh"
exec "$V/analyzer/bin/concheck" -dir /repo -prop "$1" -tier "${2:-quick}" -out "$V/evidence" -known "$V/KNOWN_FINDINGS.txt"
