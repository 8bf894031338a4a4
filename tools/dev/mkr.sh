cd /verif/harness && . /opt/vp/env.sh && export GOFLAGS=-mod=readonly && go vet ./... && CGO_ENABLED=1 go build -race -o /tmp/vmr . || exit 1
for p in "$@"; do VERIF_DIR=/tmp/vd /tmp/vmr check $p | cut -c1-1200; done
