export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/usr/local/go/bin:$PATH
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off
