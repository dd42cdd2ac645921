#!/bin/bash
# check.sh ID [quick|thorough]   decide one property on /repo's current working tree
# check.sh build                 build the checker only
# check.sh replay FILE           run the case of a replay file again
# Exit 0: held. Exit 1 with a VIOLATION line: broken. Exit 2: no verdict (the code or the checker does not build).
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export MC_ROOT="$here" CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS
mkdir -p "$CARGO_TARGET_DIR" "$here/evidence"

build() {
  exec 9>"$CARGO_TARGET_DIR/.check-lock"
  flock 9
  # cargo looks at modification times; a checkout or a copy can change contents without moving them, so the
  # contents decide here whether the crates of /repo are built again
  local sum
  sum="$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.fst' -o -name '*.txt' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
  if [ "$sum" != "$(cat "$CARGO_TARGET_DIR/.repo-sum" 2>/dev/null)" ]; then
    rm -f "$CARGO_TARGET_DIR/.repo-sum"
    (cd "$here/mc" && cargo clean --release --offline -p layered-nlp -p layered-amount -p layered-clauses -p layered-part-of-speech -p mc >/dev/null 2>&1)
  fi
  if ! (cd "$here/mc" && cargo build --release --offline --locked >"$CARGO_TARGET_DIR/build.log" 2>&1); then
    cat "$CARGO_TARGET_DIR/build.log"
    echo "check.sh: /repo or the checker does not build: no verdict"
    exit 2
  fi
  echo "$sum" >"$CARGO_TARGET_DIR/.repo-sum"
  flock -u 9
  exec 9>&-
}

case "${1:-}" in
  "") sed -n 2,5p "$0"; exit 2 ;;
  build) build; exit 0 ;;
  replay) build; exec "$CARGO_TARGET_DIR/release/mc" replay "$2" ;;
  *) build; exec "$CARGO_TARGET_DIR/release/mc" check "$1" --tier "${2:-quick}" ;;
esac
