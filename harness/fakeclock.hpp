// Clocks under control: while one of these lives, every look at a clock of the C++ library finds one tick gone.
#pragma once

struct FakeClock
{
    explicit FakeClock(long long tick_ns = 1000000);
    ~FakeClock();
    FakeClock(const FakeClock&) = delete;
    FakeClock& operator=(const FakeClock&) = delete;
    void pass(long long ns);     // time passes
    void set_date(long long ns); // the system's date is moved, and no time passes
};
