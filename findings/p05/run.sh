#!/bin/bash
# Shows the recorded finding of P05 against /repo (fails while the defect is there)
cd "$(dirname "$0")"; d=$PWD; . /opt/vp/env.sh
echo "{\"Replace\":{\"/repo/gkr/forged_verif_test.go\":\"$d/forged_verif_test.go\"}}" > /tmp/p05-overlay.json
cd /repo && go test -overlay /tmp/p05-overlay.json -run TestForgedOutputs ./gkr
