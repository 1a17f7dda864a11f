# CMake generated Testfile for 
# Source directory: /repo/src/rbus
# Build directory: /verif/_build/asan/src/rbus
# 
# This file includes the relevant testing commands required for 
# testing this directory and lists subdirectories to be tested as well.
