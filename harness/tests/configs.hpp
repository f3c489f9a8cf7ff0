// Element/capacity configurations, split over translation units by -DPART=k (all parts compile in parallel).
#pragma once
#include "../elements.hpp"
using el_int = int;
using el_uchar = unsigned char;
using el::Amp;
using el::Big;
using el::MOnly;
using el::TDtor;
using el::Trk;
#ifndef PART
#define PART 0
#endif
#define REG1(NAME, FN, W) REGISTER(NAME, FN, W)
