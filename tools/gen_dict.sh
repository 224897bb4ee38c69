#!/bin/bash
# Records the words of the unchanged source in harness/mv/dict_base.json (see dict_test.go).
cd "$(dirname "$0")/../harness" || exit 1
[ -f mv/dict_base.json ] || echo '{}' > mv/dict_base.json
VERIF_DICT_OUT=$PWD/mv/dict_base.json go test -vet=off -tags uavionix -count=1 -run XXX ./mv
