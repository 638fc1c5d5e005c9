# Read by CMake right after project(nlcglib), through CMAKE_PROJECT_nlcglib_INCLUDE.

# The Kokkos that apt has with the Serial backend (libtrilinos-kokkos-dev) has no target
# Kokkos::kokkoscore, and its Kokkos::kokkos names an include directory that does not exist.
# Its config defines Kokkos::kokkos only where there is none yet.
add_library(Kokkos::kokkos INTERFACE IMPORTED GLOBAL)
set_target_properties(Kokkos::kokkos PROPERTIES
  INTERFACE_LINK_LIBRARIES "trilinos_kokkosalgorithms;trilinos_kokkoscontainers;trilinos_kokkoscore;-DKOKKOS_DEPENDENCE"
  INTERFACE_COMPILE_FEATURES cxx_std_14
  INTERFACE_INCLUDE_DIRECTORIES /usr/include/trilinos)
add_library(Kokkos::kokkoscore INTERFACE IMPORTED GLOBAL)
set_target_properties(Kokkos::kokkoscore PROPERTIES
  INTERFACE_INCLUDE_DIRECTORIES /usr/include/trilinos)

