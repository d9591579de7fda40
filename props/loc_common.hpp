#pragma once
#include "pbt.hpp"
#include <locale.h>

namespace {
// Runs the rest of the case in some locale; C again at the end.
struct InLocale {
    explicit InLocale(pbt::Src &s)
    {
        static const char *const names[] = {"C", "tr_TR.ISO-8859-9", "en_US.ISO-8859-1", "ru_RU.KOI8-R",
                                            "C.UTF-8"};
        const char *n = s.pick(names);
        if (!pbt::shared_process && setlocale(LC_ALL, n)) {
            s.note("locale %s", n);
            if (strchr(n, '_'))
                s.label("8-bit locale");
        }
    }
    ~InLocale()
    {
        if (!pbt::shared_process)
            setlocale(LC_ALL, "C");
    }
};
} // namespace
