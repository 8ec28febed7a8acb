mk () 
{ 
    mkdir -p $1;
    cat > $1/demo.sh <<EOF
#!/bin/bash
export HOME=\${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
here=\$(cd "\$(dirname "\$0")" && pwd)
tmp=\$(mktemp -d); trap 'rm -rf "\$tmp"' EXIT
echo "{\"Replace\": {\"\$PWD/internal/zz_demo_test.go\": \"\$here/demo_test.go\"}}" > "\$tmp/overlay.json"
TMPDIR=\$tmp go test -vet=off -count=1 -timeout 120s -overlay "\$tmp/overlay.json" -run '^TestDemo$' ./internal
EOF

}
