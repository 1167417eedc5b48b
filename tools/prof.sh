#!/bin/bash
# prof.sh <gb> <cbmc flags...> : SSA steps per source function
gb=$1; shift
cbmc $gb --program-only --no-standard-checks "$@" 2>/dev/null > /tmp/prog.txt
wc -l /tmp/prog.txt
grep -o "function [A-Za-z_0-9]*" /tmp/prog.txt | sort | uniq -c | sort -rn | head -25
