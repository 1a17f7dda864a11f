# Distributed under the OSI-approved BSD 3-Clause License.  See accompanying
# file Copyright.txt or https://cmake.org/licensing for details.

cmake_minimum_required(VERSION 3.5)

if(EXISTS "/verif/_build/asan/deps/src/linenoise-stamp/linenoise-gitclone-lastrun.txt" AND EXISTS "/verif/_build/asan/deps/src/linenoise-stamp/linenoise-gitinfo.txt" AND
  "/verif/_build/asan/deps/src/linenoise-stamp/linenoise-gitclone-lastrun.txt" IS_NEWER_THAN "/verif/_build/asan/deps/src/linenoise-stamp/linenoise-gitinfo.txt")
  message(STATUS
    "Avoiding repeated git clone, stamp file is up to date: "
    "'/verif/_build/asan/deps/src/linenoise-stamp/linenoise-gitclone-lastrun.txt'"
  )
  return()
endif()

execute_process(
  COMMAND ${CMAKE_COMMAND} -E rm -rf "/verif/_build/asan/deps/src/linenoise"
  RESULT_VARIABLE error_code
)
if(error_code)
  message(FATAL_ERROR "Failed to remove directory: '/verif/_build/asan/deps/src/linenoise'")
endif()

# try the clone 3 times in case there is an odd git clone issue
set(error_code 1)
set(number_of_tries 0)
while(error_code AND number_of_tries LESS 3)
  execute_process(
    COMMAND "/usr/bin/git"
            clone --no-checkout --config "advice.detachedHead=false" "https://github.com/antirez/linenoise.git" "linenoise"
    WORKING_DIRECTORY "/verif/_build/asan/deps/src"
    RESULT_VARIABLE error_code
  )
  math(EXPR number_of_tries "${number_of_tries} + 1")
endwhile()
if(number_of_tries GREATER 1)
  message(STATUS "Had to git clone more than once: ${number_of_tries} times.")
endif()
if(error_code)
  message(FATAL_ERROR "Failed to clone repository: 'https://github.com/antirez/linenoise.git'")
endif()

execute_process(
  COMMAND "/usr/bin/git"
          checkout "master" --
  WORKING_DIRECTORY "/verif/_build/asan/deps/src/linenoise"
  RESULT_VARIABLE error_code
)
if(error_code)
  message(FATAL_ERROR "Failed to checkout tag: 'master'")
endif()

set(init_submodules TRUE)
if(init_submodules)
  execute_process(
    COMMAND "/usr/bin/git" 
            submodule update --recursive --init 
    WORKING_DIRECTORY "/verif/_build/asan/deps/src/linenoise"
    RESULT_VARIABLE error_code
  )
endif()
if(error_code)
  message(FATAL_ERROR "Failed to update submodules in: '/verif/_build/asan/deps/src/linenoise'")
endif()

# Complete success, update the script-last-run stamp file:
#
execute_process(
  COMMAND ${CMAKE_COMMAND} -E copy "/verif/_build/asan/deps/src/linenoise-stamp/linenoise-gitinfo.txt" "/verif/_build/asan/deps/src/linenoise-stamp/linenoise-gitclone-lastrun.txt"
  RESULT_VARIABLE error_code
)
if(error_code)
  message(FATAL_ERROR "Failed to copy script-last-run stamp file: '/verif/_build/asan/deps/src/linenoise-stamp/linenoise-gitclone-lastrun.txt'")
endif()
