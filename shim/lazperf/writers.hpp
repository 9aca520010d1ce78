// Stand-in for laz-perf 3.x: copc-lib does its own writing, nothing is needed here
#pragma once
#include "header.hpp"
#include "lazperf.hpp"
#include "vlr.hpp"
