#pragma once
#include "../../rbdl.h"
namespace RigidBodyDynamics
{
    namespace Addons
    {
        inline bool URDFReadFromFile(const char *filename, Model *model, bool floating_base, bool = false)
        {
            Script &s = script();
            ++s.reads;
            s.file = filename;
            s.floating = floating_base;
            s.fresh = model->mBodies.size() == 1 && model->mBodyNameMap.size() == 1;
            if (!s.readable) { return false; }
            *model = s.model;
            return true;
        }
    }
}
