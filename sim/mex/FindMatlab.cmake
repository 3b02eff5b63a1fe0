# Stand-in for CMake's FindMatlab: the gateways are compiled against the C matrix
# interface declared in this directory, which the simulator's host implements.
set (Matlab_FOUND TRUE)
set (Matlab_INCLUDE_DIRS "${CMAKE_CURRENT_LIST_DIR}")
set (Matlab_LIBRARIES "")
set (Matlab_VERSION "0.0")
set (Matlab_ROOT_DIR "")
set (Matlab_MAIN_PROGRAM "")
set (Matlab_MEX_EXTENSION "mexa64")
function (matlab_get_release_name_from_version v out)
  set (${out} "simulated" PARENT_SCOPE)
endfunction ()
function (matlab_add_mex)
  cmake_parse_arguments (A "EXECUTABLE;MODULE;SHARED;R2017b;R2018a;EXCLUDE_FROM_ALL;NO_IMPLICIT_LINK_TO_MATLAB_LIBRARIES" "NAME;OUTPUT_NAME;DOCUMENTATION" "SRC;LINK_TO" ${ARGN})
  if (NOT A_OUTPUT_NAME)
    set (A_OUTPUT_NAME ${A_NAME})
  endif ()
  add_library (${A_NAME} MODULE ${A_SRC} ${A_UNPARSED_ARGUMENTS})
  target_include_directories (${A_NAME} PRIVATE ${Matlab_INCLUDE_DIRS})
  target_compile_definitions (${A_NAME} PRIVATE MATLAB_MEX_FILE)
  set_target_properties (${A_NAME} PROPERTIES PREFIX "" SUFFIX ".mexa64" OUTPUT_NAME "${A_OUTPUT_NAME}")
  if (A_LINK_TO)
    target_link_libraries (${A_NAME} ${A_LINK_TO})
  endif ()
endfunction ()
