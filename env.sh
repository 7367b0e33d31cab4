# Go environment for building the checker; caches live under /verif/.cache (git-ignored).
VDIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
if [ -d /opt/veriftools/go1.27.3 ]; then export GOROOT=/opt/veriftools/go1.27.3; export PATH="$GOROOT/bin:$PATH"; fi
export GOENV=off GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off CGO_ENABLED=0
export GOCACHE="$VDIR/.cache/go-build"
mkdir -p "$VDIR/.cache" "$VDIR/bin" "$VDIR/evidence"
