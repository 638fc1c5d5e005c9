# usage: . demo_lib.sh; build; run [-n N] args
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="$PWD"
W="$(mktemp -d)"
trap 'rm -rf "$W"' EXIT
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none
export OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none
export OMPI_MCA_plm=isolated OMPI_MCA_oob_tcp_if_include=lo
build() {
  mpicxx -std=c++17 -O1 -w -I"$HERE" -I"$REPO/include" "$HERE/demo.cpp" -o "$W/demo" "$REPO/_build/src/libnlcglib.so" -Wl,-rpath,"$REPO/_build/src" -ldl || exit 0
}
cd_work() { cd "$W" || exit 0; }
