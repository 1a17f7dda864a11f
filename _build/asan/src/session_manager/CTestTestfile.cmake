# CMake generated Testfile for 
# Source directory: /repo/src/session_manager
# Build directory: /verif/_build/asan/src/session_manager
# 
# This file includes the relevant testing commands required for 
# testing this directory and lists subdirectories to be tested as well.
