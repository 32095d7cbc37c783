#!/bin/bash
# try.sh PROP [TIMEOUT]: run all jobs of a property one by one
p=$1; t=${2:-40}; jr=${3:-.}
for j in $(python3 -c "
import checks,re
for j in checks.PROPS['$p']['jobs']:
    if re.search('$jr',j['name']): print(j['name'])"); do VP_NOVALIDATE=1 timeout $t python3 check.py $p -v --tier ${TIER:-thorough} --job "^$j$" 2>&1 | grep -E "paths|cex|error:|undefined|incon|FAIL|unknown|Unsupp|trap" | cut -c1-${W:-220} | head -7; [ ${PIPESTATUS[0]} = 124 ] && echo "$j TIMEOUT"; done
