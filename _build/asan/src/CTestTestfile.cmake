# CMake generated Testfile for 
# Source directory: /repo/src
# Build directory: /verif/_build/asan/src
# 
# This file includes the relevant testing commands required for 
# testing this directory and lists subdirectories to be tested as well.
subdirs("rtmessage")
subdirs("core")
subdirs("session_manager")
subdirs("rbus")
