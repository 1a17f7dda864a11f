# CMake generated Testfile for 
# Source directory: /repo/src/core
# Build directory: /verif/_build/asan/src/core
# 
# This file includes the relevant testing commands required for 
# testing this directory and lists subdirectories to be tested as well.
