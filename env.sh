# The toolchain, without network.
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do
	if [ -x "$d/go" ]; then PATH=$d:$PATH; break; fi
done
export PATH
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off
export SEMNET=/repo
