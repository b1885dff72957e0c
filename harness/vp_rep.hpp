// Harness prelude for build_parser, debug_parsing_error and message texts.
#ifndef VP_REP_HPP
#define VP_REP_HPP

#include "vp.hpp"
#include <boost/metaparse/build_parser.hpp>
#include <boost/metaparse/debug_parsing_error.hpp>

#include <boost/mpl/apply_wrap.hpp>

#include <iostream>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vp
{
  inline void section(int id) { std::printf("S %d\n", id); }

  template <class T> void built()
  {
    std::printf("B ");
    ser<T>::go();
    std::printf("\n");
  }

  // Runs the constructor of D in a child, whose output becomes codes.
  template <class D> void debug()
  {
    int fd[2];
    std::fflush(stdout);
    if (pipe(fd) != 0) return;
    const pid_t p = fork();
    if (p == 0)
    {
      dup2(fd[1], 1);
      close(fd[0]);
      close(fd[1]);
      D d;
      (void) d;
      std::cout.flush();
      std::fflush(stdout);
      _exit(77);                // the constructor came back
    }
    close(fd[1]);
    std::printf("D ");
    char buf[4096];
    for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0;)
      for (ssize_t i = 0; i < n; ++i) put(int((signed char) buf[i]));
    close(fd[0]);
    int st = 0;
    waitpid(p, &st, 0);
    std::printf("| %d\n", WIFEXITED(st) ? WEXITSTATUS(st) : 1000);
  }
}

#endif
