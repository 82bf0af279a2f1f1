# Environment of the checks. The build sandbox provides Go under /opt/veriftools.
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=1 TZ=America/New_York
export GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOTELEMETRY=off LC_ALL=C.UTF-8
# The checks run in a time zone in which local time is not UTC and the clocks change.
export ZONEINFO=/opt/veriftools/go1.27.3/lib/time/zoneinfo.zip
