export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=mod GOPROXY=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
