#!/bin/bash
# check.sh ID: build from /repo's working tree and decide one property (VERIF_SEED, VERIF_TIER).
here=$(cd "$(dirname "$0")" && pwd)
id=$1
main=; [ "$id" = C21 ] && main=main
bash "$here/build.sh" $main || exit 2
export VH_ROOT="$here" VH_MAIN_BIN="$here/harness/target/repo-main/release/main"
exec "$here/harness/target/release/vh" check "$id"
