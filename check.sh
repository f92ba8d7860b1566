#!/bin/bash
# check.sh PROPERTY [quick|thorough]
# Builds the analyser (offline, from /verif/gotcheck) and decides one property
# from the current source of the repository.
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"
repo="${VERIF_REPO:-/repo}"
bash "$here/build.sh" || exit 2
exec "$here/bin/gotcheck" -prop "$prop" -tier "$tier" -repo "$repo" -verif "$here"
