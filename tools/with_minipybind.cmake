# Included right after project(opensfm) through CMAKE_PROJECT_opensfm_INCLUDE.
# Builds the repository's own python modules against /verif/minipybind (the
# pybind11 submodule of this copy is empty; see DESIGN.md).
function(pybind11_add_module name)
  set(srcs ${ARGN})
  list(REMOVE_ITEM srcs NO_EXTRAS MODULE SHARED THIN_LTO)
  add_library(${name} MODULE ${srcs})
  set_target_properties(${name} PROPERTIES PREFIX "" SUFFIX ".so")
endfunction()
add_library(pybind11_headers INTERFACE)
add_library(pybind11::pybind11 ALIAS pybind11_headers)
add_library(pybind11::module ALIAS pybind11_headers)
add_library(pybind11::embed ALIAS pybind11_headers)
include_directories(${MPB_INCLUDE} ${MPB_PYTHON_INCLUDE} ${MPB_NUMPY_INCLUDE})
set(PYBIND11_INCLUDE_DIR ${MPB_INCLUDE})
set(PYTHON_INCLUDE_DIRS ${MPB_PYTHON_INCLUDE})

macro(add_subdirectory dir)
  if(NOT "${dir}" STREQUAL "third_party/pybind11")
    _add_subdirectory(${dir} ${ARGN})
  endif()
endmacro()
