// Property-based testing engine: choice-sequence generators, fork per case,
// shrinking, replay. See DESIGN.md.
#pragma once
#include "xs.h"
#include <initializer_list>
#include <stdint.h>

// Draws from a recorded choice sequence (replay, shrinking) or from an RNG;
// every decision of a generated program goes through pick().
struct Gen
{
    const uint32_t* preset = nullptr;
    uint32_t npreset = 0;
    uint32_t pos = 0;
    uint64_t rng = 0;
    bool big = false; // thorough tier: larger programs
    uint32_t pick(uint32_t n); // uniform in [0,n), 0 is the simplest
    uint32_t range(uint32_t lo, uint32_t hi) { return lo + pick(hi - lo + 1); }
    bool chance(uint32_t num, uint32_t den) { return pick(den) >= den - num; } // simplest: false
    template<typename T, unsigned N> T of(const T (&a)[N]) { return a[pick(N)]; }
    template<typename T> T of(std::initializer_list<T> a) { return a.begin()[pick((uint32_t)a.size())]; }
    // small numbers are likely, up to hi (biased)
    uint32_t small(uint32_t hi);
};

struct Case
{
    virtual ~Case() {}
    virtual void generate(Gen& g, xs::Config& c) = 0; // before the scheduler starts
    virtual void run() = 0;                           // as thread 0 under the scheduler
};

struct Prop
{
    const char* id;
    Case* (*make)();
    const char* rule;          // how cases are made and what is non-trivial
    const char* const* labels; // label 0 = "nontrivial"; null terminated
    double weight;             // relative number of cases
    Prop* next;
    Prop(const char* i, Case* (*m)(), const char* r, const char* const* l, double w = 1.0);
};

#define PROPERTY(ID, CLS, RULE, ...)                                           \
    static const char* const CLS##_labels[] = { "nontrivial", __VA_ARGS__, nullptr }; \
    static Prop CLS##_prop(ID, []() -> Case* { return new (xs::raw_alloc(sizeof(CLS))) CLS; }, RULE, CLS##_labels);
