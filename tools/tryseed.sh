#!/bin/bash
# tryseed.sh ID [full]: demo on a clean copy (must pass) and on a patched copy (must fail); with "full" also build + stable tests
id=$1; W=/tmp/tryseed-$id; rm -rf "$W"; mkdir -p $W/s; cp -a /repo $W/r; cp -a /verif/seeded/$id/. $W/s/; rm -f $W/s/patch.diff $W/s/meta.json
cd $W/r; timeout 300 bash $W/s/demo.sh >$W/o1 2>&1; a=$?
git apply /verif/seeded/$id/patch.diff || { echo "$id patch does not apply"; exit 1; }
timeout 300 bash $W/s/demo.sh >$W/o2 2>&1; b=$?
echo "$id clean=$a patched=$b"; [ $a = 0 ] && [ $b != 0 ] || { tail -n 3 $W/o1; tail -n 3 $W/o2; }
rm -rf "$W"
