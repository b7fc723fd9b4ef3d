// Replay harness: bridge to RBDL (with a scripted stand-in of the library).
#include "common.h"
#include "humoto/rbdl.h"
#include "kinematics_machines.h"

verif::Machine *verif::makeMachine(const std::string &name, const json &c)
{
    if (name == "kinematics") { return new KinematicsMachine(); }
    throw std::logic_error("unknown machine " + name);
}
