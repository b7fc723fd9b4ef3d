// Replay harness: stance machine, foot parameters, walking pattern generator.
#define VERIF_MSGPACK
#include "common.h"
#include "humoto/walking.h"
#include "humoto/wpg04.h"
#include "wpg_machines.h"

verif::Machine *verif::makeMachine(const std::string &name, const json &c)
{
    if (name == "stance") { return new StanceMachine(); }
    if (name == "walk") { return new WalkMachine(); }
    throw std::logic_error("unknown machine " + name);
}
