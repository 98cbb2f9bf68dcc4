#!/bin/bash
# addfix.sh Cxx "grep of commit subject" "what failed": records a repaired defect
h=$(git -C /repo log --format=%h --grep="$2" -F -1)
[ -n "$h" ] || { echo "no commit: $2"; exit 1; }
echo "fixed: property=$1 $h $3" >> "$(dirname "$0")/../known_findings.txt"
