# CMake generated Testfile for 
# Source directory: /repo/test
# Build directory: /verif/_build/asan/test
# 
# This file includes the relevant testing commands required for 
# testing this directory and lists subdirectories to be tested as well.
subdirs("rbus")
