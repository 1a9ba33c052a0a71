#!/bin/bash
# plant.sh ID... : confirms planted bugs of /verif/seeded in a scratch copy of
# /repo: the patch applies, the stable tests still pass with it, demo.sh passes
# without it and fails with it.  Never touches /repo.
V="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_PROFILE_DEV_DEBUG=0
W=/tmp/plant
if [ ! -d $W/repo ]; then
  mkdir -p $W
  git -C /repo worktree prune
  git clone -q /repo $W/repo
fi
git -C $W/repo fetch -q origin && git -C $W/repo reset -q --hard "$(git -C /repo rev-parse HEAD)"
[ -e $W/repo/Cargo.lock ] || cp /opt/vp/Cargo.lock $W/repo/Cargo.lock
rc=0
for id in "$@"; do
  S="$V/seeded/$id"; D=$W/demo; rm -rf /tmp/plant/demo; mkdir -p $D; cp -a "$S"/. $D/; rm -f $D/patch.diff $D/meta.json
  cd $W/repo || exit 1
  git checkout -q -- . 
  bash $D/demo.sh > $W/demo0.log 2>&1; a=$?
  if ! git apply "$S/patch.diff"; then echo "$id: patch does not apply"; rc=1; continue; fi
  bash $D/demo.sh > $W/demo1.log 2>&1; b=$?
  export CARGO_TARGET_DIR=$W/target
  cargo test --workspace --no-fail-fast --offline --lib --tests > $W/t1.log 2>&1
  cargo test --workspace --no-fail-fast --offline --doc > $W/t2.log 2>&1
  cargo test --workspace --no-fail-fast --offline --no-default-features --lib --tests > $W/t3.log 2>&1
  cargo check -q --lib --offline --features tracing > $W/t4.log 2>&1 && cargo check -q --lib --offline --features log >> $W/t4.log 2>&1; c=$?
  unset CARGO_TARGET_DIR
  t=$(python3 - <<P
import json,subprocess
subprocess.run(["python3","/opt/vp/results.py","$W/a.json","cargo:$W/t1.log","cargo:$W/t2.log"],stdout=subprocess.DEVNULL)
subprocess.run(["python3","/opt/vp/results.py","$W/b.json","cargo:$W/t3.log"],stdout=subprocess.DEVNULL)
a=json.load(open("$W/a.json"));b=json.load(open("$W/b.json"))
p=set(a["passed"])|{"no-default-features/"+x for x in b["passed"]}
st=json.load(open("/opt/vp/BASELINE.json"))["stable"]
m=[x for x in st if x not in p]
print("ok" if not m else "FAIL "+str(m[:6]))
P
)
  git checkout -q -- .
  if [ $a = 0 ] && [ $b != 0 ] && [ $c = 0 ] && [ "$t" = ok ]; then echo "$id: good (demo $a/$b)"; else echo "$id: BAD demo $a/$b check $c tests $t"; rc=1; fi
done
exit $rc
