#!/bin/bash
# seedcheck.sh ID [check-id ...]: confirm a planted bug in a scratch copy of /repo (/tmp/sb)
# and run the checks against it.  NOTEST=1 skips the repository's own tests.
id=$1; shift
V=/verif; S=/tmp/sb; D=$V/seeded/$id
if [ ! -d $S ]; then
	cp -a /repo $S; rm -rf "$S/_build"; mkdir -p /tmp/sbvp
	cp /opt/vp/* /tmp/sbvp/; sed -i 's#/opt/vp#/tmp/sbvp#g; s#=/repo#=/tmp/sb#g; s#/repo/_build#/tmp/sb/_build#g' /tmp/sbvp/*.sh
fi
git -C $S fetch -q ${SEED_REPO:-/repo} HEAD && git -C $S checkout -qf FETCH_HEAD
rm -rf /tmp/sbdemo; cp -a $D /tmp/sbdemo; rm -f /tmp/sbdemo/*.diff /tmp/sbdemo/meta.json
( cd $S && timeout 300 bash /tmp/sbdemo/demo.sh >/tmp/sbdemo.clean 2>&1 ); c=$?
git -C $S apply $D/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
( cd $S && timeout 300 bash /tmp/sbdemo/demo.sh >/tmp/sbdemo.bug 2>&1 ); b=$?
t=skipped
if [ -z "$NOTEST" ]; then
	if bash /tmp/sbvp/build.sh >/tmp/sb.build 2>&1; then
		bash /tmp/sbvp/test.sh /tmp/sb.json >/tmp/sb.test 2>&1
		t=$(python3 - <<'P'
import json
r=json.load(open('/tmp/sb.json')); s=json.load(open('/opt/vp/BASELINE.json'))['stable']
m=[x for x in s if x not in r['passed']]
print('pass' if not m else 'FAIL:'+','.join(m))
P
)
	else t=BUILDFAIL; fi
fi
echo "$id: demo clean=$c patched=$b tests=$t"
p=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
for x in $p; do
	VERIF_REPO=$S $V/bin/check $x >/tmp/sb.check 2>&1; echo "$id: check $x rc=$? $(grep -m1 VIOLATION /tmp/sb.check)"
done
git -C $S checkout -qf -- .
