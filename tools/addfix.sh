#!/bin/bash
# addfix.sh PROPERTY "what failed": records the last commit of /repo as a repair
echo "fixed: property=$1 $(git -C /repo log -1 --format=%h) $2" >> /verif/KNOWN_FINDINGS
