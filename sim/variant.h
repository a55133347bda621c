#pragma once
#include "scn.h"
void sched_pick(sim::Rng& g, sim::SchedCfg& c);
void env_vary(Scenario& s, sim::Rng& g);
