# CMake generated Testfile for 
# Source directory: /repo/utils
# Build directory: /verif/_build/asan/utils
# 
# This file includes the relevant testing commands required for 
# testing this directory and lists subdirectories to be tested as well.
subdirs("rbuscli")
