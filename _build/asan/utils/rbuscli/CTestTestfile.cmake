# CMake generated Testfile for 
# Source directory: /repo/utils/rbuscli
# Build directory: /verif/_build/asan/utils/rbuscli
# 
# This file includes the relevant testing commands required for 
# testing this directory and lists subdirectories to be tested as well.
