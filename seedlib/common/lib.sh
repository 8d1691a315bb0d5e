# Sourced by demo.sh; builds a scratch module from the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "${T:?}"' EXIT
mkdir -p "$T/trunnel" "$T/random"
for d in ast fault gen inspect internal meta parse tv; do cp -r "$PWD/$d" "$T/trunnel/$d"; done
cp "$here/go.mod.txt" "$T/trunnel/go.mod"
cp "$here/go.sum.txt" "$T/trunnel/go.sum"
cp "$here/random.go.txt" "$T/random/random.go"
printf 'module github.com/mmcloughlin/random\n\ngo 1.21\n' > "$T/random/go.mod"
export HOME="${HOME:-/root}" GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off GO111MODULE=on
# run_prog: runs main.go.txt inside the module
run_prog() {
	mkdir -p "$T/trunnel/zzdemo"
	cp "$here/main.go.txt" "$T/trunnel/zzdemo/main.go"
	(cd "$T/trunnel" && go build -o "$T/demo" ./zzdemo) || return 3
	(cd "$T" && timeout 60 "$T/demo")
}
# run_gen: generates a package from schema.txt and runs check_test.go.txt in it
run_gen() {
	mkdir -p "$T/trunnel/zzdemo" "$T/trunnel/zzout"
	cat > "$T/trunnel/zzdemo/main.go" <<'EOF'
package main

import (
	"fmt"
	"os"

	"github.com/mmcloughlin/trunnel/gen"
	"github.com/mmcloughlin/trunnel/parse"
)

func main() {
	fs, err := parse.Files(os.Args[2:])
	if err == nil {
		var b []byte
		if b, err = gen.Marshallers("zzout", fs); err == nil {
			err = os.WriteFile(os.Args[1], b, 0o644)
		}
	}
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
}
EOF
	(cd "$T/trunnel" && go build -o "$T/demo" ./zzdemo) || return 3
	timeout 60 "$T/demo" "$T/trunnel/zzout/gen.go" "$here/schema.txt" || return 1
	cp "$here/check_test.go.txt" "$T/trunnel/zzout/check_test.go"
	(cd "$T/trunnel" && timeout 120 go test -vet=off -count=1 ./zzout)
}
