# CMake generated Testfile for 
# Source directory: /repo
# Build directory: /verif/_build/asan
# 
# This file includes the relevant testing commands required for 
# testing this directory and lists subdirectories to be tested as well.
subdirs("src")
subdirs("utils")
subdirs("test")
subdirs("sampleapps")
