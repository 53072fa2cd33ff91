#!/bin/bash
# author-time: run try.sh for each given seeded id (or all), one line each.  usage: tryall.sh [ID ..]
cd /verif/seeded
for id in ${@:-*}; do
  s=$(date +%s)
  out=$(/verif/tools/try.sh $id 2>&1)
  if echo "$out" | grep -q "VIOLATION property="; then r=CAUGHT; else r=MISSED; fi
  echo "$id $r $(( $(date +%s) - s ))s $( [ $r = MISSED ] && echo "$out" | tail -2 | cut -c1-300 )"
done
