# Go environment and the engine; sourced by setup.sh and check.sh.
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
cd "$VERIF"
# The engine lives outside /verif and /repo so that nothing is left behind there.
ENGINE_DIR="${TMPDIR:-/tmp}/gosym-build.$(id -u)"
ENGINE="$ENGINE_DIR/gosym"
build_engine() {
  mkdir -p "$ENGINE_DIR" && (cd "$VERIF/engine" && GOFLAGS=-mod=mod go build -o "$ENGINE" .)
}
