#!/bin/bash
# Run with cwd /repo after the build. Exit 0: the property holds in the demonstrated case.
here=$(cd "$(dirname "$0")" && pwd); work=$(mktemp -d); trap 'rm -rf "$work"' EXIT
Q=/usr/include/x86_64-linux-gnu/qt5
g++ -std=c++11 -fPIC -w -I"$here" -Ipillowcore -I$Q -I$Q/QtCore -I$Q/QtNetwork -I$Q/QtScript "$here/demo.cpp" -o "$work/demo" -L_build/lib -lpillowcore -Wl,-rpath,"$PWD/_build/lib" -lQt5Script -lQt5Network -lQt5Core -lpthread || exit 2
cd "$work" && QT_LOGGING_RULES='*=false' timeout 120 ./demo 2>&1 | tail -5; exit ${PIPESTATUS[0]}
