// Sources and destinations of data that fail on request.
#pragma once
#include <string.h>

#include <stdexcept>
#include <streambuf>
#include <string>

#include "core.h"

namespace streams {
    using namespace sim;
    struct SourceFailure : std::runtime_error {
        SourceFailure() : std::runtime_error("source failed") {}
    };
    // delivers its data in drawn pieces; fails after `failAt` bytes
    struct Source : std::streambuf {
        std::string data;
        size_t pos = 0;
        long failAt = -1;
        bool pieces = false, fired = false;
        char window[4096];
        int_type underflow() override {
            mem::Off off;
            if (gptr() < egptr())
                return traits_type::to_int_type(*gptr());
            size_t n = data.size() - pos;
            if (failAt >= 0) {
                if ((long)pos >= failAt) {
                    fired = true;
                    count("fault:source failed");
                    throw SourceFailure();
                }
                n = std::min(n, (size_t)failAt - pos);
            }
            if (n == 0)
                return traits_type::eof();
            n = std::min(n, sizeof window);
            if (pieces and n > 1) {
                n = 1 + draw((uint32_t)std::min(n, (size_t)24));
                n = std::min(n, data.size() - pos);
                if (failAt >= 0)
                    n = std::min(n, (size_t)failAt - pos);
                count("fault:source in pieces");
            }
            memcpy(window, data.data() + pos, n);
            pos += n;
            setg(window, window, window + n);
            return traits_type::to_int_type(window[0]);
        }
    };
    // accepts `room` bytes, then fails
    struct Sink : std::streambuf {
        std::string got;
        long room = -1;
        bool throws = false, fired = false;
        bool full(size_t& n) {
            if (room < 0)
                return false;
            if ((long)n > room) {
                n = room;
                if (not fired)
                    count("fault:sink failed");
                fired = true;
                return true;
            }
            return false;
        }
        std::streamsize xsputn(const char* s, std::streamsize n) override {
            mem::Off off;
            size_t k = n;
            bool f = full(k);
            got.append(s, k);
            if (room >= 0)
                room -= k;
            if (f and throws)
                throw SourceFailure();
            return k;
        }
        int_type overflow(int_type c) override {
            char ch = traits_type::to_char_type(c);
            return xsputn(&ch, 1) == 1 ? c : traits_type::eof();
        }
    };
}
