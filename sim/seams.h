#pragma once
#include <cstdint>
namespace sim {
extern int64_t g_iconv_fail;    // index of the conversion call that fails (-1: none)
extern int64_t g_iconv_calls;
// thread scheduler (p_threads.cpp)
bool in_task();
bool task_blocked();
void task_atomic(int d);
}
