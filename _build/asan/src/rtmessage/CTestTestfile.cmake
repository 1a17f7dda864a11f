# CMake generated Testfile for 
# Source directory: /repo/src/rtmessage
# Build directory: /verif/_build/asan/src/rtmessage
# 
# This file includes the relevant testing commands required for 
# testing this directory and lists subdirectories to be tested as well.
