#pragma once
#include "vsx.h"
#include "VapourSynth4.h"
#include "VSHelper4.h"
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <string>
#include <vector>
#include <atomic>
#include <cmath>
#define HARNESS(name) extern "C" void name()
extern "C" const VSAPI *getVapourSynthAPI(int version) noexcept;
static const VSAPI *api;
static VSCore *core;
static inline void setup(int flags = 0, int threads = 1) {
    api = getVapourSynthAPI(VAPOURSYNTH_API_VERSION);
    core = api->createCore(flags | ccfDisableAutoLoading);
    api->setThreadCount(threads, core);
}
