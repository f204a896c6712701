#!/bin/bash
# tools/fixed.sh PXX "what failed"  -- records the last /repo commit as a repair
h=$(git -C /repo log -1 --format=%h)
echo "fixed: property=$1 $h $2" >> /verif/known_findings.jsonl
