#!/bin/bash
# trybug.sh ID [CHECK...]: demo and checks against a planted bug, in a scratch copy
V=$(cd "$(dirname "$0")/.." && pwd)
id=$1; shift
W=/tmp/try-$id
rm -rf "$W"; cp -a /repo "$W"
cd "$W" && git checkout -q -- . && git apply "$V/seeded/$id/patch.diff" || { echo "PATCH FAILS"; exit 1; }
if [ -z "$NODEMO" ]; then
  (cd "$W/_build" && make -j8 all) >/tmp/try-$id.log 2>&1 || { echo "BUILD FAILS"; tail -5 /tmp/try-$id.log; }
  cd "$W/_build/perlmod" && rsync -rlp --checksum --exclude='/Makefile*' --exclude='/blib' --exclude='*.o' --exclude='/Client.c' "$W/perl/" ./ && make >>/tmp/try-$id.log 2>&1
  cd "$W/_build/pymod" && rsync -rlp --checksum --exclude='/build' --exclude='/nscang*.so' --exclude='/Makefile*' "$W/python/" ./ && /usr/bin/python3 setup.py -q build_ext --inplace --force >>/tmp/try-$id.log 2>&1
  cd "$W"
  sh "$V/seeded/$id/demo.sh"; echo "demo with patch: $?"
  cd /repo; sh "$V/seeded/$id/demo.sh"; echo "demo without: $?"
fi
p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
cd "$V"
[ -n "$NOCHECK" ] && set -- ; [ -n "$NOCHECK" ] || for c in ${@:-$p}; do
  VERIF_REPO="$W" VERIF_OUT=/tmp/try-$id.out timeout 900 python3 checks/run.py $c 2>&1 | cut -c1-300 | tail -4
done
git -C "$V" status --short evidence | head -2
rm -rf "$W" "/tmp/try-$id.out"
