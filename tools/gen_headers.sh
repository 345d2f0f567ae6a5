#!/bin/bash
# gen_headers.sh OUTDIR : run the generator of /repo's working tree (from a scratch copy) over /verif/schemas into OUTDIR.
set -euo pipefail
out=$1; here=$(cd "$(dirname "$0")/.." && pwd); repo=${REPO:-/repo}
scr=$(mktemp -d "$out.scr.XXXXXX"); trap 'rm -rf "$scr"' EXIT
cp -r "$repo/generator" "$scr/generator"; rm -rf "$scr/generator/EmbeddedProto/__pycache__"
(cd "$scr/generator" && protoc -I . --python_out=EmbeddedProto embedded_proto_options.proto)
cat > "$scr/plugin.sh" <<P
#!/bin/bash
exec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$scr/generator" /repo/venv/bin/python -m EmbeddedProto --protoc-plugin
P
chmod +x "$scr/plugin.sh"; mkdir -p "$out"
cd "$here/schemas"
protoc -I. -I"$scr/generator" --plugin=protoc-gen-eams="$scr/plugin.sh" --eams_out="$out" vs.proto sub/common.proto sub/other.proto sub/abc.proto nopkg.proto big.proto
