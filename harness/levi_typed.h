#pragma once
#include "mc.h"
void typedTerms(mc::Runner& R, bool derivatives);
