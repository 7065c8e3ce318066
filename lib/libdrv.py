"""Common text of the C drivers that exercise the library: they print only through write()."""
import os
import harness as H
import creplay

PRELUDE = r'''
#include <stddef.h>
#include <stdint.h>
#include <unistd.h>
static char ob_[16384]; static int on_;
static void flush_(void) { int i = 0; while (i < on_) { int k = write(1, ob_ + i, on_ - i); if (k <= 0) break; i += k; } on_ = 0; }
static void pc(int c) { if (on_ >= (int)sizeof ob_) flush_(); ob_[on_++] = c; }
static void ps(const char *s) { while (*s) pc(*s++); }
static void pu(unsigned long long v) { char t[24]; int n = 0; do { t[n++] = '0' + (int)(v % 10); v /= 10; } while (v); while (n > 0) pc(t[--n]); }
static void pi(long long v) { if (v < 0) { pc('-'); pu(0ULL - (unsigned long long)v); } else pu(v); }
static void sp(void) { pc(' '); }
static void nl(void) { pc('\n'); }
static void ph(int c) { pc("0123456789abcdef"[(c >> 4) & 15]); pc("0123456789abcdef"[c & 15]); }
'''

def cstr(bs):
    """bytes -> a C string literal (three-digit octal escapes)"""
    return '"' + ''.join(chr(c) if 32 <= c < 127 and c not in (34, 92, 63) else '\\%03o' % c for c in bs) + '"'

def run_cases(chk, tgts, texts):
    """texts: driver programs -> {target name: [(status, rc, lines)]}"""
    out = {}
    for t in tgts:
        out[t.name] = [(x[0], x[1], x[2]) for x in creplay.run_sources(t, texts)]
        chk.add('traces_validated_against_impl', len(texts))
    return out
