#pragma once
#include "case.hh"
#include "lib.hh"
// a simulated execution that matches through the library
Spec libSpec(const Job &, const Plan &);
