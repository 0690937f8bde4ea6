#!/bin/bash
# bash /verif/run.sh ID [quick|thorough]: builds the verifier and runs the check
# of one property against /repo's working tree. Exit 0 or 1 only.
cd /verif || exit 1
. /opt/vp/env.sh
id=$1
tier=${2:-${VERIF_TIER:-quick}}
bin=$(mktemp -d /tmp/vcbin.XXXXXX) || exit 1
trap '/bin/rm -rf "$bin"' EXIT
ok=0
for i in 1 2; do
  if (cd /verif/vc && GOWORK=off GOFLAGS=-mod=mod GONOSUMDB='*' GOSUMDB=off GONOSUMCHECK=1 "$GO126" build -o "$bin/vc" .); then ok=1; break; fi
done
if [ $ok = 0 ]; then echo "the verifier does not build"; exit 2; fi
"$bin/vc" check -id "$id" -tier "$tier"
rc=$?
exit $rc
