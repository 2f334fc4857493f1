# Toolchain environment shared by all commands of this tree.
export HOME=${HOME:-/root} LANG=C.UTF-8
export GOROOT=/opt/veriftools/go1.24.13
export PATH=$GOROOT/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOWORK=off GOENV=off
export GOPATH=/root/go GOCACHE=${VERIF_GOCACHE:-/root/.cache/go-build}
export GOEXPERIMENT=synctest CGO_ENABLED=0
unset GOFLAGS
