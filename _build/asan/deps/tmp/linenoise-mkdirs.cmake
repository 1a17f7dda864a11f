# Distributed under the OSI-approved BSD 3-Clause License.  See accompanying
# file Copyright.txt or https://cmake.org/licensing for details.

cmake_minimum_required(VERSION 3.5)

file(MAKE_DIRECTORY
  "/verif/_build/asan/deps/src/linenoise"
  "/verif/_build/asan/deps/src/linenoise-build"
  "/verif/_build/asan"
  "/verif/_build/asan/deps/tmp"
  "/verif/_build/asan/deps/src/linenoise-stamp"
  "/verif/_build/asan/deps/src"
  "/verif/_build/asan/deps/src/linenoise-stamp"
)

set(configSubDirs )
foreach(subDir IN LISTS configSubDirs)
    file(MAKE_DIRECTORY "/verif/_build/asan/deps/src/linenoise-stamp/${subDir}")
endforeach()
if(cfgdir)
  file(MAKE_DIRECTORY "/verif/_build/asan/deps/src/linenoise-stamp${cfgdir}") # cfgdir has leading slash
endif()
