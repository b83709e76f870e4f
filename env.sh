# Build environment of the checks: as the repository's own build, with the hooks' build tag.
export HOME=/root
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOENV=off GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=readonly GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export CGO_ENABLED=1 CGO_CFLAGS="-O2 -g -I/opt/vp/rocksdb-compat"
hdrs=$(cat /repo/indextree/b/cppbtree/cpp-btree-1.0.1/*.h 2>/dev/null | sha256sum | cut -c1-16)
export CGO_CXXFLAGS="-O2 -g -DVP_BTREE_HEADERS=0x$hdrs"
unset RANDFILE RANDCOUNT
