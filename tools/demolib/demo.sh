#!/bin/bash
# Builds main.cpp (and demo.proto through the repository's generator) against /repo's build products and runs it.
# exit 0: behaves as documented; nonzero: the property is broken
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
B=$R/_build
Q=/usr/include/x86_64-linux-gnu/qt5
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
export QT_SELECT=qt5 QT_QPA_PLATFORM=offscreen
export LD_LIBRARY_PATH=$B/src/protobuf:$B/src/grpc:$B/src/wellknowntypes:$B/src/qttypes
SRCS="$D/main.cpp"
cd "$W" || exit 3
if [ -f "$D/demo.proto" ]; then
    QT_PROTOBUF_OPTIONS="$(cat "$D/options" 2>/dev/null)" protoc --plugin=protoc-gen-qtprotobufgen=$B/src/generator/qtprotobufgen \
        --qtprotobufgen_out="$W" -I"$D" demo.proto || { echo "generator failed"; exit 4; }
    for h in *.h; do moc -I"$B/include/Protobuf" -I"$B/include" -I"$R/src/protobuf" "$h" -o "moc_${h%.h}.cpp" || exit 4; done
fi
for c in "$W"/*.cpp; do [ -f "$c" ] && SRCS="$SRCS $c"; done
if grep -q Q_OBJECT "$D/main.cpp"; then moc "$D/main.cpp" -o main.moc || exit 4; fi
for h in $(cat "$D/repo_mocs" 2>/dev/null); do moc -I"$B/include/Protobuf" -I"$B/include/Grpc" -I"$B/include" "$R/$h" -o "$W/rmoc_$(basename "$h" .h).cpp" || exit 4; SRCS="$SRCS $W/rmoc_$(basename "$h" .h).cpp"; done
for c in $(cat "$D/repo_srcs" 2>/dev/null); do SRCS="$SRCS $R/$c"; done
INC="-I$W -I$D -I$B/include -I$B/include/Protobuf -I$B/include/Grpc -I$B/include/ProtobufQtTypes -I$R/src/protobuf -I$R/src/grpc -I$R/src/grpc/quick -I$R/src/qttypes -I$B/src/qttypes -isystem $Q"
for m in QtCore QtQml QtNetwork QtGui; do INC="$INC -isystem $Q/$m"; done
LIBS="-L$B/src/protobuf -L$B/src/grpc -L$B/src/qttypes $(cat "$D/libs" 2>/dev/null) -lQt5Protobuf -lQt5Qml -lQt5Network -lQt5Gui -lQt5Core -lpthread"
g++ -std=c++14 -fPIC -w -O0 -g $(cat "$D/flags" 2>/dev/null) $INC $SRCS -o demo $LIBS > log 2>&1 || { echo "demo does not compile"; tail -20 log; exit 4; }
timeout 120 ./demo
