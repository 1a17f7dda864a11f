# CMake generated Testfile for 
# Source directory: /repo/sampleapps
# Build directory: /verif/_build/asan/sampleapps
# 
# This file includes the relevant testing commands required for 
# testing this directory and lists subdirectories to be tested as well.
