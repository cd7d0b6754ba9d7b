export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local HOME=/root GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
