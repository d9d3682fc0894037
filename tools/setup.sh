#!/usr/bin/env bash
# Builds the symbolic executor, the libc/libstdc++ models and the generated
# header overlay into /verif/build. Idempotent.
set -e
cd "$(dirname "$0")/.."
mkdir -p build/gen/bits
if ! [ -x build/symx ] || [ engine/symx.cpp -nt build/symx ] || [ engine/expr.hpp -nt build/symx ]; then
  clang++-18 -O2 -std=c++20 -fexceptions $(llvm-config-18 --cppflags) engine/symx.cpp -o build/symx.tmp \
    -L"$(llvm-config-18 --libdir)" -lLLVM-18 -lz3 -lpthread
  mv build/symx.tmp build/symx
fi
# libstdc++ 13 overlay: pair comparison as in libstdc++ 14 (the code base
# declares it that way), and bodies of the usually extern templates.
python3 - <<'P'
import re
src = open('/usr/include/c++/13/bits/stl_pair.h').read()
pat = re.compile(r'template<typename _T1, typename _T2>\s*inline _GLIBCXX_CONSTEXPR bool\s*operator==\(const pair<_T1, _T2>& __x, const pair<_T1, _T2>& __y\)')
new, n = pat.subn('template<typename _T1, typename _T2, typename _U1, typename _U2>\n    inline _GLIBCXX_CONSTEXPR bool\n    operator==(const pair<_T1, _T2>& __x, const pair<_U1, _U2>& __y)', src)
assert n == 1, n
open('build/gen/bits/stl_pair.h', 'w').write(new)
P
mkdir -p build/genx/bits
sed 's/^# define _GLIBCXX_EXTERN_TEMPLATE 1/# define _GLIBCXX_EXTERN_TEMPLATE 0/' \
  /usr/include/x86_64-linux-gnu/c++/13/bits/c++config.h > build/genx/bits/c++config.h
F="-fno-pie -fno-pic -std=c++23 -O1 -g1 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -Ibuild/genx -Ibuild/gen -Wno-everything"
if ! [ -f build/rt.bc ] || [ rt/rt.cpp -nt build/rt.bc ] || [ rt/rt_c.c -nt build/rt.bc ]; then
  clang++-18 $F -fno-builtin -emit-llvm -c rt/rt.cpp -o build/rt_cpp.bc
  clang-18 -fno-pie -fno-pic -O1 -fno-builtin -Wno-everything -emit-llvm -c rt/rt_c.c -o build/rt_c.bc
  llvm-link-18 build/rt_cpp.bc build/rt_c.bc -o build/rt.bc
fi
echo "setup ok"
