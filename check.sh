#!/bin/bash
# check.sh C05 [--tier quick|thorough] [--replay FILE] [--facet NAME]
# Builds the harness for one property against /repo's working tree and runs it.
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?property id}; shift
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
export HV_DIR=$here
bin=$(echo "$id" | tr 'A-Z' 'a-z')
profile=release; extra=; sub=
export HV_CT_TMP= HV_CT_MACHINE=
unset HV_PLAIN
build() { # $1 = rustflags, $2 = target dir
  (cd "$here/harness" && RUSTFLAGS="$1" CARGO_TARGET_DIR="$2" cargo build --profile $profile --offline --quiet $extra --bin "$bin" 2>"$here/harness/build-$bin$sub-$profile.log")
}
hooks="--cfg husk_verif --cap-lints allow"
if [ "$id" = C26 ]; then
  # built as a release is: husk with trace instrumentation, and husk as it is (and with opt-level 2), for valgrind
  profile=ct; extra="--features ct"; sub=-ct
  machine() { sub=-ctm; build "$hooks" "$here/harness/target-ctm" || build "--cap-lints allow" "$here/harness/target-ctm"; }
  machine & other=$!
  (profile=ct2; machine) & other2=$!
  export RUSTC_WRAPPER=$here/harness/ct-rustc.sh
fi
dir=$here/harness/target$sub
if ! build "$hooks" "$dir"; then
  # without the hooks: the facets that need them are left out
  dir=$here/harness/target$sub-nohook
  if ! build "--cap-lints allow" "$dir"; then
    tail -n 40 "$here/harness/build-$bin$sub-$profile.log"
    echo "ERROR: the harness for $id does not build"
    exit 2
  fi
  echo "note: built without hooks"
fi
if [ "$id" = C26 ]; then
  if ! wait $other || ! wait $other2; then
    tail -n 40 "$here/harness/build-$bin-ctm-ct2.log"
    echo "ERROR: the harness for $id does not build"
    exit 2
  fi
  HV_CT_TMP=$(mktemp -d /tmp/hv-ct.XXXXXX) || exit 2
  trap 'rm -rf "$HV_CT_TMP"' EXIT
  HV_CT_MACHINE="$here/harness/target-ctm/ct/$bin $here/harness/target-ctm/ct2/$bin"
  "$dir/$profile/$bin" "$@"
  exit $?
fi
if [ "$id" = C20 ]; then
  # a build without optimisation as well, for what grows with the stack
  profile=dbg
  build "$hooks" "$dir" || build "--cap-lints allow" "$dir" || { tail -n 40 "$here/harness/build-$bin$sub-dbg.log"; echo "ERROR: the harness for $id does not build"; exit 2; }
  export HV_PLAIN=$dir/dbg/$bin
  profile=release
fi
exec "$dir/$profile/$bin" "$@"
