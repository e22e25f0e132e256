# stand-in for the configuration of the COMMS library
if (NOT TARGET cc::comms)
    add_library(cc::comms INTERFACE IMPORTED)
    set_target_properties(cc::comms PROPERTIES INTERFACE_INCLUDE_DIRECTORIES "${CMAKE_CURRENT_LIST_DIR}/..")
endif ()
