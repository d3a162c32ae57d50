#pragma once
#include "mc.h"
#include "mcsched.h"
#include "thread/Thread.h"
#include <functional>
#include <vector>
// a library Thread whose body is a lambda; joined explicitly by the harness
struct Body : public Thread {
    std::function<void()> f;
    explicit Body(const std::function<void()> &g) : f(g) {}
    ~Body() { wait(); }
protected:
    virtual void run() { f(); }
};
