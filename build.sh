# Sourced by check.sh and setup.sh. build_for ID DIR builds the checker; run_for ID DIR runs it.

# net_overlay DIR: a copy of the toolchain's net package in which listening can be taken over by the harness.
net_overlay() {
  local root; root=$(go env GOROOT)
  awk '{print} /^func \(lc \*ListenConfig\) Listen\(ctx context.Context, network, address string\) \(Listener, error\) \{/ {print "\tif VerifListen != nil {\n\t\treturn VerifListen(network, address)\n\t}"; n++} END {print "\n// VerifListen, if set, replaces listening.\nvar VerifListen func(network, address string) (Listener, error)"; if (n != 1) exit 1}' "$root/src/net/dial.go" > "$1/dial.go.txt" || { echo "cannot hook net.Listen"; return 1; }
  printf '{"Replace": {"%s/src/net/dial.go": "%s"}}\n' "$root" "$1/dial.go.txt" > "$1/overlay.json"
}

build_for() {
  case $1 in
    C01|C02|C03|C04|C05|C06|C07|C08|C20|C23|C24|C25|C27) (cd harness && go build -o "$2/checker" ./cmd/codec) ;;
    C26) (cd harness && go build -o "$2/checker" ./cmd/plug) ;;
    C17) (cd harness && go build -o "$2/checker" ./cmd/plug && go build -race -o "$2/race" ./cmd/plug) ;;
    C18) (cd harness && go build -o "$2/receiver" github.com/kuznetsovin/egts-protocol/cli/receiver && go build -o "$2/checker" ./cmd/conf) ;;
    C21) (cd harness && go build -o "$2/checker" ./cmd/stor) ;;
    C19) (cd harness && go build -o "$2/packet-gen" github.com/kuznetsovin/egts-protocol/cli/packet-gen && go build -o "$2/checker" ./cmd/pgen) ;;
    C09|C10|C11|C12|C14|C15|C16|C22) net_overlay "$2" && (cd harness && go test -c -overlay "$2/overlay.json" -o "$2/checker" ./srv) ;;
    C13) net_overlay "$2" && cp "$2/overlay.json" "$2/net.json" || return 1
      (cd harness && go build -race -overlay "$2/net.json" -o "$2/race" ./cmd/race && go run ./cmd/instr "$2" "$2/overlay.json" $(realpath /repo)/libs/egts $(realpath /repo)/cli/receiver/server $(realpath /repo)/cli/receiver/storage \
        && go test -c -tags instrumented -overlay "$2/overlay.json" -o "$2/checker" ./srv) ;;
    *) echo "no check for $1"; return 1 ;;
  esac
}
run_for() {
  case $1 in
    C09|C10|C11|C12|C13|C14|C15|C16|C22) "$2/checker" -test.run='^TestMC$' -test.timeout=0 ;;
    *) "$2/checker" ;;
  esac
}
