# Shared by the demonstrations: generates code for a schema with the compiler built in /repo, in a scratch folder.
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
CP=$(ls "$REPO"/3rdparty/java/*.jar "$REPO"/build/compiler/core/17/jar/*.jar "$REPO"/build/compiler/extensions/*/17/jar/*.jar | grep -v '_sources\|_javadocs\|junit\|jacoco' | tr '\n' ':')
PYTHON=python3
[ -x /opt/venv/bin/python ] && PYTHON=/opt/venv/bin/python
export PYTHONDONTWRITEBYTECODE=1
zserio() { java -cp "$CP" zserio.tools.ZserioTool "$@" >"$W/zserio.log" 2>&1 || { tail -5 "$W/zserio.log"; return 1; }; }
gen_python() { zserio -withTypeInfoCode -python "$W/py" "${@:2}" -src "$HERE" "$1"; }
run_python() { PYTHONPATH="$W/py:$REPO/compiler/extensions/python/runtime/src" "$PYTHON" "$HERE/$1"; }
gen_java() { zserio -withTypeInfoCode -java "$W/java" "${@:2}" -src "$HERE" "$1"; }
run_java() { # Main.java beside the demonstration
  RT=$(ls "$REPO"/build/runtime_libs/java/17/jar/zserio_runtime.jar)
  mkdir -p "$W/jc" && javac -nowarn -cp "$RT" -d "$W/jc" $(find "$W/java" -name '*.java') "$HERE/$1.java" >"$W/javac.log" 2>&1 || { tail -5 "$W/javac.log"; return 1; }
  java -ea -cp "$RT:$W/jc" "$1"; }
gen_cpp() { zserio -withTypeInfoCode -cpp "$W/cpp" "${@:2}" -src "$HERE" "$1"; }
run_cpp() { # file.cpp beside the demonstration; runtime sources compiled in parallel
  local RT="$REPO/compiler/extensions/cpp/runtime/src"
  mkdir -p "$W/o"
  find "$W/cpp" "$RT/zserio" "$HERE/$1.cpp" -name '*.cpp' | grep -v Sqlite | grep -v ValidationSqliteUtil | nl -nln | \
    xargs -P 8 -L 1 sh -c 'g++ -std=c++11 -O0 -w -I"'"$W/cpp"'" -I"'"$RT"'" -c "$1" -o "'"$W/o"'/$0.o"' || return 1
  g++ "$W"/o/*.o -o "$W/prog" -lpthread && "$W/prog"; }
