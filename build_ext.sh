#!/bin/bash
# Rebuild /repo's C/C++ extensions in place (git-ignored files) if their
# sources differ from what the present .so files were built from.
export PY=/opt/venv/bin/python
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
if [ -f /opt/vp/ext.sh ]; then
  . /opt/vp/ext.sh
  # skip the (slow) setuptools call when every stamp is current
  cd /repo || exit 1
  cpp=hexrd/core/transforms/cpp_sublibrary/src
  cur=1
  chk() {
    local name=$1 so=$2 h; shift 2
    h=$(cat setup.py pyproject.toml | sha256sum; find "$@" -type f \( -name '*.c' -o -name '*.h' -o -name '*.cpp' -o -name '*.hpp' \) -print0 2>/dev/null | sort -z | xargs -0r sha256sum)
    [ "$h" = "$(cat build/vp-stamps/$name 2>/dev/null)" ] && compgen -G "$so.*.so" >/dev/null || cur=0
  }
  chk transforms_c_api hexrd/core/extensions/transforms_c_api hexrd/core/transforms/new_capi
  chk convolve hexrd/core/convolution/_convolve hexrd/core/convolution/src
  chk transforms hexrd/core/extensions/transforms $(find $cpp -type f ! -name inverse_distortion.cpp)
  chk inverse_distortion hexrd/core/extensions/inverse_distortion $(find $cpp -type f ! -name transforms.cpp)
  [ $cur = 1 ] && exit 0
  build_exts
else
  export XSIMD_INCLUDE_DIR=/usr/include EIGEN3_INCLUDE_DIR=/usr/include/eigen3 SETUPTOOLS_SCM_PRETEND_VERSION=1.0.0
  cd /repo && $PY setup.py build_ext --inplace --force -j 4
fi
