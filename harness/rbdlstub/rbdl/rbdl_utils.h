#pragma once
#include "rbdl.h"
namespace RigidBodyDynamics
{
    namespace Utils
    {
        inline void CalcCenterOfMass(Model &model, const Math::VectorNd &q, const Math::VectorNd &, double &mass, Math::Vector3d &com,
                                     Math::Vector3d * = NULL, Math::Vector3d * = NULL, bool update_kinematics = true)
        {
            if (update_kinematics) { UpdateKinematicsCustom(model, &q, NULL, NULL); }
            mass = 0.;
            com.setZero();
            for (std::size_t i = 1; i < model.mBodies.size(); ++i)
            {
                mass += model.mBodies[i].mMass;
                com += model.mBodies[i].mMass * (model.X_base[i].r + model.X_base[i].E.transpose() * model.mBodies[i].mCenterOfMass);
            }
            com /= mass;
        }
    }
}
