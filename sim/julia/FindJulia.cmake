# Stand-in for CMake's FindJulia: the gateways are compiled against the headers in include/jlcxx,
# and the simulator's host implements the calls into the Julia runtime.
set (Julia_FOUND TRUE)
set (Julia_INCLUDE_DIRS "${CMAKE_CURRENT_LIST_DIR}/include")
set (Julia_VERSION "0.0")
