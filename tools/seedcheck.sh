#!/bin/bash
# seedcheck.sh ID... : validates planted bugs in a scratch copy of /repo (applies, builds, passes the stable tests, the demo tells
# the difference). Usage: seedcheck.sh [--notest] ID...
notest=0; [ "$1" = --notest ] && { notest=1; shift; }
S=/tmp/seedbox; mkdir -p $S/vp; exec 9>$S/lock; flock 9
[ -d $S/repo/.git ] || git clone -q /repo $S/repo
git -C $S/repo checkout -q -- . ; git -C $S/repo pull -q --ff-only || exit 1
for f in build.sh test.sh configure.sh; do sed "s#/repo#$S/repo#g; s#/opt/vp/configure.sh#$S/vp/configure.sh#; s#/opt/vp/build.sh#$S/vp/build.sh#" /opt/vp/$f > $S/vp/$f; done
for id in "$@"; do
	d=/verif/seeded/$id; st=ok
	mkdir -p $S/demo; rm -rf $S/demo/*; cp -r $d/. $S/demo/; rm -f $S/demo/*.diff $S/demo/meta.json
	(cd $S/repo && timeout 300 bash $S/demo/demo.sh >$S/out0 2>&1) || { st="demo fails on the unchanged tree: $(tail -3 $S/out0)"; }
	git -C $S/repo apply $d/patch.diff || st="patch does not apply"
	(cd $S/repo && timeout 300 bash $S/demo/demo.sh >$S/out1 2>&1) && st="demo passes with the patch"
	if [ "$st" = ok ] && [ $notest = 0 ]; then
		bash $S/vp/test.sh $S/t.json >$S/tlog 2>&1
		python3 - $S/t.json <<'P' || st="stable tests fail"
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; p=set(json.load(open(sys.argv[1]))['passed'])
m=[x for x in b if x not in p]
print("missing:",m) if m else None
sys.exit(1 if m else 0)
P
	fi
	git -C $S/repo checkout -q -- .
	echo "$id: $st"
done
