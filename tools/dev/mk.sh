cd /verif/harness && . /opt/vp/env.sh && export GOFLAGS=-mod=readonly && go vet ./... && go build -o /tmp/vm . || exit 1
for p in "$@"; do VERIF_DIR=/tmp/vd /tmp/vm check $p | cut -c1-1200; done
