// What the library prints: swallowed, or caught for a look.
#pragma once
#include <iostream>
#include <sstream>
#include <streambuf>

struct Quiet
{
    struct Null : std::streambuf
    {
        int overflow(int c) override { return c == EOF ? 0 : c; }
        std::streamsize xsputn(const char *, std::streamsize n) override { return n; }
    } null;
    std::streambuf *o, *e;
    Quiet()
        : o(std::cout.rdbuf(&null))
        , e(std::cerr.rdbuf(&null))
    {
    }
    ~Quiet()
    {
        std::cout.rdbuf(o);
        std::cerr.rdbuf(e);
    }
};

struct Caught
{
    std::ostringstream text, errors;
    std::streambuf *o, *e;
    Caught()
        : o(std::cout.rdbuf(text.rdbuf()))
        , e(std::cerr.rdbuf(errors.rdbuf()))
    {
    }
    ~Caught()
    {
        std::cout.rdbuf(o);
        std::cerr.rdbuf(e);
    }
    std::string str() const { return text.str(); }
};
