#!/bin/bash
# seedtest.sh ID...: verifies planted bugs, each in a private copy of /repo
# bound over /repo in its own namespaces: demo quiet without the patch, patch
# applies and builds, stable tests pass (unless NOTEST=1), demo fails, and the
# property's check reports it (unless NOCHECK=1).
V=${VERIFDIR:-/verif}; export V
one() {
  id=$1; w=/tmp/wt/$id; rm -rf "$w"; mkdir -p /tmp/wt; cp -a /repo "$w"
  git -C "$w" checkout -q -- . ; git -C "$w" clean -fdq
  mkdir -p "/tmp/wt/d-$id"; cp -r $V/seeded/$id/. /tmp/wt/d-$id/
  prop=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  W=$w ID=$id PROP=$prop unshare -Urmn bash -c '
    . /opt/vp/env.sh
    mount --bind $W /repo; ip link set lo up; cd /repo
    timeout 300 bash /tmp/wt/d-$ID/demo.sh >/tmp/wt/$ID.clean.log 2>&1; a=$?
    git apply /tmp/wt/d-$ID/patch.diff || { echo "$ID: PATCH DOES NOT APPLY"; exit; }
    go build ./... || { echo "$ID: DOES NOT BUILD"; exit; }
    timeout 300 bash /tmp/wt/d-$ID/demo.sh >/tmp/wt/$ID.bug.log 2>&1; b=$?
    t=skipped
    if [ -z "$NOTEST" ]; then
      bash /opt/vp/test.sh /tmp/wt/$ID.json >/tmp/wt/$ID.test.log 2>&1
      t=$(python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\"));o=json.load(open(\"/tmp/wt/$ID.json\"))
print(sorted(set(b[\"stable\"])-set(o[\"passed\"])) or \"ok\")")
    fi
    c=skipped
    if [ -z "$NOCHECK" ]; then
      bash $V/run.sh $PROP quick >/tmp/wt/$ID.check.log 2>&1; c="exit $? $(grep -c "^VIOLATION property=$PROP " /tmp/wt/$ID.check.log) violations"
    fi
    echo "$ID ($PROP): demo clean=$a bug=$b tests=$t check: $c"
  '
  rm -rf "$w" "/tmp/wt/d-$id"
}
for i in "$@"; do one $i; done
