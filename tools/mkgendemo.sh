#!/bin/bash
# mkgendemo.sh ID: writes demo.sh which generates code for demo.h and compiles/runs demo.cpp
cat > "$(dirname "$0")/../seeded/$1/demo.sh" <<'X'
#!/bin/bash
# generates code for demo.h via the generator built in the current directory (/repo), then compiles and runs demo.cpp including that code
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
lib=$(ls /usr/lib/x86_64-linux-gnu/libmartchus-c++utilities*.so /usr/lib/x86_64-linux-gnu/libc++utilities*.so 2>/dev/null | head -n1)
gen=$repo/_build/out/generator/reflective_rapidjson_generator
[ -x "$gen" ] || gen=$(find "$repo" -type f -name 'reflective_rapidjson_generator' -perm -u+x | head -n1)
cp "$here"/*.h "$here"/*.cpp "$tmp"/
cd "$tmp"
opts=(-resource-dir /usr/lib/llvm-18/lib/clang/18 -std=c++17 "-I$repo/lib/include" -I/usr/include/martchus-c++utilities)
[ -d /usr/lib/llvm-18/lib/clang/18 ] || opts[1]=$(clang -print-resource-dir)
"$gen" generate --input-file "$tmp/demo.h" --output-file "$tmp/json.h" --generators json $(cat "$here/json.args" 2>/dev/null) --clang-opt "${opts[@]}" || exit 3
"$gen" generate --input-file "$tmp/demo.h" --output-file "$tmp/binary.h" --generators binary $(cat "$here/binary.args" 2>/dev/null) --clang-opt "${opts[@]}" || exit 4
g++ -std=c++17 -O0 -w -I"$tmp" -I"$repo/lib/include" -I/usr/include/martchus-c++utilities demo.cpp -o demo "$lib" || exit 5
timeout 120 ./demo
X
