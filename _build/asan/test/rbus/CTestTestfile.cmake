# CMake generated Testfile for 
# Source directory: /repo/test/rbus
# Build directory: /verif/_build/asan/test/rbus
# 
# This file includes the relevant testing commands required for 
# testing this directory and lists subdirectories to be tested as well.
