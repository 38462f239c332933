#!/bin/bash
# usage: sweep.sh "IDS" "SEEDS" [options]: runs checks on the current tree with other seeds; prints only alarms and odd counts
ids=$1 seeds=$2; shift 2
for s in $seeds; do for id in $ids; do
  o=$(cd /verif/harness && timeout 900 ./target/x86_64-unknown-linux-gnu/debug/verif run $id --seed $s --out /tmp/sweep.json --replay-dir /tmp/sweepr "$@" 2>&1); rc=$?
  if [ $rc != 0 ]; then echo "ALARM $id seed $s rc $rc"; echo "$o" | tail -6 | cut -c1-900; fi
  echo "$o" | tail -1 | grep -v " 0 watchdog, 0 stuck(other), 0 unreproduced" | cut -c1-300
done; echo "seed $s done $(date +%T)"; done
