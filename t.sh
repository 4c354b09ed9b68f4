#!/bin/bash
# t.sh "IDS" "SEEDS" [tier]: run checks, one short line each (development helper)
for i in $1; do for s in $2; do /opt/venv/bin/python check.py $i --seed $s --tier ${3:-quick} > /tmp/o_$i.txt 2>&1; rc=$?; echo "$i seed=$s rc=$rc $(grep -E '^(OK|INCONC|ERROR)' /tmp/o_$i.txt | cut -c1-${W:-160})"; [ $rc != 0 ] && head -${L:-14} /tmp/o_$i.txt | cut -c1-${C:-400}; done; done
