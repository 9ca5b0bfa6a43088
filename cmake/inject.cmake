# Loaded by project() in /repo/CMakeLists.txt through CMAKE_PROJECT_Scalopus_INCLUDE.
# The repository's own, unmodified CMake project is built; the two submodules that are empty here (cbor, seasocks) are
# replaced with stand-ins from /verif/shims, and the harnesses of /verif/harness are added last.
include(CMakePackageConfigHelpers)
get_filename_component(VERIF_DIR "${CMAKE_CURRENT_LIST_DIR}/.." ABSOLUTE)

macro(add_subdirectory)
  if("${ARGV0}" STREQUAL "thirdparty/cbor")
    if(NOT TARGET cbor_shim)
      add_library(cbor_shim INTERFACE IMPORTED GLOBAL)
      set_property(TARGET cbor_shim PROPERTY INTERFACE_INCLUDE_DIRECTORIES "${VERIF_DIR}/shims")
      add_library(Cbor::cbor ALIAS cbor_shim)
    endif()
  elseif("${ARGV0}" STREQUAL "thirdparty/seasocks")
    if(NOT TARGET seasocks_shim)
      add_library(seasocks_shim INTERFACE IMPORTED GLOBAL)
      set_property(TARGET seasocks_shim PROPERTY INTERFACE_INCLUDE_DIRECTORIES "${VERIF_DIR}/shims")
      add_library(Seasocks::seasocks ALIAS seasocks_shim)
    endif()
  elseif("${ARGV0}" STREQUAL "scalopus_examples")
    # nothing is decided with the examples
  else()
    _add_subdirectory(${ARGV})
  endif()
endmacro()

function(verif_targets dir out)
  get_property(targets DIRECTORY ${dir} PROPERTY BUILDSYSTEM_TARGETS)
  get_property(subdirs DIRECTORY ${dir} PROPERTY SUBDIRECTORIES)
  foreach(subdir IN LISTS subdirs)
    verif_targets(${subdir} sub)
    list(APPEND targets ${sub})
  endforeach()
  set(${out} ${targets} PARENT_SCOPE)
endfunction()

function(verif_finish)
  # A compiler warning is not a verdict: drop -Werror from every target.
  verif_targets(${CMAKE_SOURCE_DIR} targets)
  foreach(target IN LISTS targets)
    get_property(type TARGET ${target} PROPERTY TYPE)
    if(NOT type STREQUAL "INTERFACE_LIBRARY" AND NOT type STREQUAL "UTILITY")
      get_property(opts TARGET ${target} PROPERTY COMPILE_OPTIONS)
      list(REMOVE_ITEM opts -Werror)
      set_property(TARGET ${target} PROPERTY COMPILE_OPTIONS "${opts};-w")
    endif()
  endforeach()
  include(${VERIF_DIR}/harness/CMakeLists.txt)
endfunction()
cmake_language(DEFER CALL verif_finish)
