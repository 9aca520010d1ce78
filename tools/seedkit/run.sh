# sourced by demo.sh: builds what the demonstration needs from the tree in the current directory, in a scratch folder
d=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
compile() { # $1 = extra flags, $2... = sources
    flags=$1; shift
    mkdir -p "$t/o"
    printf '%s\n' "$@" | xargs -P8 -I{} sh -c 'clang++ -std=gnu++17 -w '"$flags"' -I"'"$repo"'/cpp/include" -I"'"$d"'/shim" -I"'"$d"'" -include "'"$d"'/shim/prelude.hpp" -c "{}" -o "'"$t"'/o/$(echo "{}" | tr / _).o" || exit 255' || exit 3
}
cpp_demo() { # compiles demo.cpp with the library and runs it in the scratch folder
    compile "-O0 $1" "$repo"/cpp/src/*/*.cpp "$d/shim/lazperf_shim.cpp" "$d/demo.cpp"
    clang++ $1 -o "$t/demo" "$t"/o/*.o -lpthread || exit 3
    cd "$t" && ASAN_OPTIONS=detect_leaks=0 timeout 120 ./demo
}
py_demo() { # compiles the Python module and runs demo.py in the scratch folder
    py=/opt/veriftools/pyvenv/bin/python3
    inc=$($py -c 'import sysconfig; print(sysconfig.get_paths()["include"])')
    compile "-O0 -fPIC -I$inc" "$repo"/cpp/src/*/*.cpp "$d/shim/lazperf_shim.cpp" "$repo/python/bindings.cpp"
    mkdir -p "$t/p"
    cp -r "$repo/python/copclib" "$t/p/copclib"
    clang++ -shared -o "$t/p/copclib/_core.so" "$t"/o/*.o || exit 3
    cp "$d/demo.py" "$t/p/demo.py"
    cd "$t/p" && PYTHONDONTWRITEBYTECODE=1 timeout 120 $py demo.py
}
