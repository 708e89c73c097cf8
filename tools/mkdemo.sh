#!/bin/bash
# mkdemo.sh ID: writes demo.sh compiling and running demo.cpp
cat > "$(dirname "$0")/../seeded/$1/demo.sh" <<'X'
#!/bin/bash
# compiles demo.cpp against the library in the current directory (/repo) and runs it
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
lib=$(ls /usr/lib/x86_64-linux-gnu/libmartchus-c++utilities*.so /usr/lib/x86_64-linux-gnu/libc++utilities*.so 2>/dev/null | head -n1)
g++ -std=c++17 -O0 -w -I"$PWD/lib/include" -I/usr/include/martchus-c++utilities "$here/demo.cpp" -o "$tmp/demo" "$lib" || exit 2
cd "$tmp" && timeout 120 ./demo
X
