#!/bin/bash
# check.sh PROPERTY — rebuild the simulator from /repo's working tree and decide one property.
# VERIF_SEED and VERIF_TIER (quick|thorough) are honoured; extra arguments go to the simulator.
cd "$(dirname "$0")/sim" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
if [ "$1" = build ]; then set -- ; fi
# cargo decides by time stamps; a copied tree can carry old ones, so decide by content
now=$(cd /repo && find programs Cargo.toml Cargo.lock -type f -not -path '*/target/*' -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
mkdir -p target
if [ "$(cat target/repo.sha 2>/dev/null)" != "$now" ]; then
    cargo clean --offline -p hmmcl-sandbox >/dev/null 2>&1
fi
if ! cargo build --offline --quiet >target/build.log 2>&1; then
    tail -40 target/build.log >&2
    echo "the simulator does not build against this tree" >&2
    exit 2
fi
echo "$now" > target/repo.sha
[ $# -eq 0 ] && exit 0
exec ./target/debug/hmmcl-sim "$1" --tier "${VERIF_TIER:-quick}" --seed "${VERIF_SEED:-1}" "${@:2}"
