#!/bin/bash
# Checks that the verifier builds from the committed sources (every check
# rebuilds it itself, so nothing has to persist).
cd /verif && . /opt/vp/env.sh
d=$(mktemp -d /tmp/vcsetup.XXXXXX) || exit 1
trap '/bin/rm -rf "$d"' EXIT
cd /verif/vc && GOWORK=off GOFLAGS=-mod=mod GONOSUMDB='*' GOSUMDB=off "$GO126" build -o "$d/vc" .
