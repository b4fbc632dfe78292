# Sourced by demo.sh.  cxx_build OUT main.cc SRC...: compiles the given sources
# of /repo together with main.cc (next to demo.sh) into OUT.
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
WORK=$(mktemp -d)
trap 'rm -rf "$WORK"' EXIT
FLAGS="-std=c++17 -O0 -w -I$HERE/inc -I$HERE -I$WORK/gen -I$WORK/gen/fcp/tracing -I$REPO -I$REPO/_build/gen -I/usr/include/android -include optional -include cstdint -include openssl/ec.h"
LIBS="$REPO/_build/libfcp_subset.a $REPO/_build/libprotos.a -L/usr/lib/x86_64-linux-gnu/android -Wl,-rpath,/usr/lib/x86_64-linux-gnu/android -lcrypto -lprotobuf -lflatbuffers $(ls /usr/lib/x86_64-linux-gnu/libabsl_*.so /usr/lib/x86_64-linux-gnu/libabsl_*.a 2>/dev/null | sed 's#.*/lib\(.*\)\.[a-z]*$#-l\1#' | sort -u | tr '\n' ' ') -lz -lpthread"
mkdir -p "$WORK/o" "$WORK/gen/fcp/tracing"
for d in fcp/base fcp/secagg/server fcp/client; do
  [ -f "$REPO/$d/tracing_schema.fbs" ] || continue
  mkdir -p "$WORK/gen/$d"
  flatc --cpp -I "$REPO" -o "$WORK/gen/$d" "$REPO/$d/tracing_schema.fbs" >/dev/null || exit 99
  echo "#include \"$d/tracing_schema_generated.h\"" > "$WORK/gen/$d/tracing_schema.h"
done
flatc --cpp -I "$REPO" -o "$WORK/gen/fcp/tracing" "$REPO/fcp/tracing/tracing_schema_common.fbs" >/dev/null || exit 99
export FLAGS REPO WORK
cxx_build() {
  out=$1 main=$2
  shift 2
  printf '%s\n' "$@" | xargs -P8 -I{} sh -c 'g++ $FLAGS -c "$REPO/{}" -o "$WORK/o/$(echo {} | tr / _).o"' || { echo "demo does not build"; exit 99; }
  g++ $FLAGS "$HERE/$main" $(printf '%s\n' "$@" | tr / _ | sed "s#^#$WORK/o/#; s#\$#.o#") $LIBS -o "$out" || { echo "demo does not build"; exit 99; }
}
SECAGG=$(cd "$REPO" && ls fcp/secagg/client/*.cc fcp/secagg/server/*.cc fcp/secagg/server/aes/*.cc fcp/secagg/shared/*.cc fcp/base/scheduler.cc fcp/base/monitoring.cc fcp/base/clock.cc fcp/base/platform.cc | grep -v -E '_test|_bench')
# cxx_protos P.proto...: compiles these message definitions and all they import
# (the ones outside the repository come from proto/ beside this file).
cxx_protos() {
  SP=$(dirname "$(dirname "$(dirname "$(ls /opt/fcp/pyvenv/lib/python3*/site-packages/google/rpc/code.proto)")")")
  python3 - "$REPO" "$HERE/proto" "$SP" /usr/include -- "$@" > "$WORK/protos" <<'PY'
import os, re, sys
i = sys.argv.index("--")
roots, todo, seen = sys.argv[1:i], sys.argv[i + 1:], []
while todo:
    p = todo.pop()
    if p in seen or p.startswith("google/protobuf/"):
        continue
    seen.append(p)
    f = next(os.path.join(r, p) for r in roots if os.path.exists(os.path.join(r, p)))
    todo += re.findall(r'^import (?:public )?"([^"]+)"', open(f).read(), re.M)
print("\n".join(seen))
PY
  mkdir -p "$WORK/pb" "$WORK/po"
  protoc -I"$REPO" -I"$HERE/proto" -I"$SP" -I/usr/include --cpp_out="$WORK/pb" $(cat "$WORK/protos") || exit 99
  FLAGS="-I$WORK/pb $FLAGS"
  export FLAGS
  sed 's#\.proto$#.pb.cc#' "$WORK/protos" | xargs -P8 -I{} sh -c 'g++ $FLAGS -c "$WORK/pb/{}" -o "$WORK/po/$(echo {} | tr / _).o"' || { echo "demo does not build"; exit 99; }
  ar cr "$WORK/libpb.a" "$WORK"/po/*.o
  LIBS="$WORK/libpb.a $LIBS"
}
