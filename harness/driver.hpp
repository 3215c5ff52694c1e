// Search loop shared by the harnesses: generate, run in a child process, shrink, write the replay file.
//   <bin> search <profile> <kinds> <seed> <max scenarios> <seconds> <replay file>
//   <bin> replay <scenario file> <kinds>
#pragma once
#include <chrono>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include "scenario.hpp"

// provided by the harness
static Scenario generate(Rng& r, const std::string& prof);
static bool differs(const Scenario& sc, const std::string& kinds, std::string* why, bool* rel, const std::string& prof);

