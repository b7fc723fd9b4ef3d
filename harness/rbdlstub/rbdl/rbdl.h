// Stand-in for the parts of the RBDL library used by the bridge of humoto. The
// kinematics of the model are not computed but scripted: the harness says which
// tree "is in the file", and which poses and motion subspaces belong to the next
// joint angles. Conventions (transforms, numbers of bodies) are those of RBDL.
#pragma once
#include <cstring>
#include <iostream>
#include <limits>
#include <map>
#include <string>
#include <vector>
#include <Eigen/Dense>
#include <Eigen/StdVector>

namespace RigidBodyDynamics
{
    namespace Math
    {
        typedef Eigen::Vector3d Vector3d;
        typedef Eigen::Matrix3d Matrix3d;
        typedef Eigen::VectorXd VectorNd;
        typedef Eigen::MatrixXd MatrixNd;
        typedef Eigen::Matrix<double, 6, 1> SpatialVector;
        typedef Eigen::Matrix<double, 6, 6> SpatialMatrix;
        typedef Eigen::Matrix<double, 6, 3> Matrix63;

        inline Matrix3d VectorCrossMatrix(const Vector3d &v)
        {
            Matrix3d m;
            m << 0., -v(2), v(1), v(2), 0., -v(0), -v(1), v(0), 0.;
            return m;
        }

        // E: rotation from the base to the body, r: origin of the body in the base
        struct SpatialTransform
        {
            Matrix3d E;
            Vector3d r;
            SpatialTransform() : E(Matrix3d::Identity()), r(Vector3d::Zero()) {}
            SpatialTransform(const Matrix3d &rotation, const Vector3d &translation) : E(rotation), r(translation) {}
            SpatialVector apply(const SpatialVector &v) const
            {
                const Vector3d w = v.head<3>();
                const Vector3d l = v.tail<3>() - r.cross(w);
                SpatialVector s;
                s << E * w, E * l;
                return s;
            }
            SpatialTransform inverse() const { return SpatialTransform(E.transpose(), -E * r); }
            SpatialMatrix toMatrix() const
            {
                SpatialMatrix m;
                m << E, Matrix3d::Zero(), -E * VectorCrossMatrix(r), E;
                return m;
            }
            SpatialTransform operator*(const SpatialTransform &X) const
            {
                return SpatialTransform(E * X.E, X.r + X.E.transpose() * r);
            }
            void operator*=(const SpatialTransform &X) { *this = *this * X; }
        };
    }

    enum JointType
    {
        JointTypeUndefined = 0, JointTypeRevolute, JointTypePrismatic, JointTypeRevoluteX, JointTypeRevoluteY, JointTypeRevoluteZ,
        JointTypeSpherical, JointTypeEulerZYX, JointTypeEulerXYZ, JointTypeEulerYXZ, JointTypeTranslationXYZ, JointTypeFloatingBase,
        JointTypeFixed, JointType1DoF, JointType2DoF, JointType3DoF, JointType4DoF, JointType5DoF, JointType6DoF, JointTypeCustom
    };

    struct Joint
    {
        JointType mJointType;
        unsigned int mDoFCount;
        unsigned int q_index;
        unsigned int custom_joint_index;
        Joint() : mJointType(JointTypeUndefined), mDoFCount(0), q_index(0), custom_joint_index(-1) {}
    };

    struct CustomJoint
    {
        unsigned int mDoFCount;
        Math::MatrixNd S;
        virtual ~CustomJoint() {}
    };

    struct Body
    {
        double mMass;
        Math::Vector3d mCenterOfMass;
        bool mIsVirtual;
        Body() : mMass(0.), mCenterOfMass(Math::Vector3d::Zero()), mIsVirtual(false) {}
    };

    struct FixedBody
    {
        double mMass;
        Math::Vector3d mCenterOfMass;
        unsigned int mMovableParent;
        Math::SpatialTransform mParentTransform;
    };

    struct Model
    {
        std::vector<unsigned int> lambda;
        unsigned int dof_count;
        unsigned int q_size;
        unsigned int qdot_size;
        std::vector<Joint> mJoints;
        std::vector<Math::SpatialVector, Eigen::aligned_allocator<Math::SpatialVector> > S;
        std::vector<Math::SpatialTransform> X_base;
        std::vector<Math::Matrix63, Eigen::aligned_allocator<Math::Matrix63> > multdof3_S;
        std::vector<CustomJoint *> mCustomJoints;
        std::vector<FixedBody> mFixedBodies;
        unsigned int fixed_body_discriminator;
        std::vector<Body> mBodies;
        std::map<std::string, unsigned int> mBodyNameMap;

        Model() : dof_count(0), q_size(0), qdot_size(0), fixed_body_discriminator(std::numeric_limits<unsigned int>::max() / 2)
        {
            lambda.push_back(0);
            mJoints.push_back(Joint());
            S.push_back(Math::SpatialVector::Zero());
            X_base.push_back(Math::SpatialTransform());
            multdof3_S.push_back(Math::Matrix63::Zero());
            mBodies.push_back(Body());
            mBodyNameMap["ROOT"] = 0;
        }
        unsigned int GetBodyId(const char *name) const
        {
            const std::map<std::string, unsigned int>::const_iterator i = mBodyNameMap.find(name);
            return i == mBodyNameMap.end() ? std::numeric_limits<unsigned int>::max() : i->second;
        }
        bool IsFixedBodyId(const unsigned int id) const
        {
            return id >= fixed_body_discriminator && id < std::numeric_limits<unsigned int>::max() && id - fixed_body_discriminator < mFixedBodies.size();
        }
    };

    // what the harness decides
    struct Script
    {
        bool readable;
        Model model;                // contents of the "file"
        std::string file;           // recorded
        bool floating;
        int reads;
        Math::VectorNd q;           // recorded
        int updates;
        bool fresh;                 // the model was empty before it was read
        bool others;                // velocities or accelerations were given as well
        void (*kinematics)(Model &model, const Math::VectorNd &q);
    };
    inline Script &script()
    {
        static Script s;
        return s;
    }

    inline void UpdateKinematicsCustom(Model &model, const Math::VectorNd *Q, const Math::VectorNd *QDot, const Math::VectorNd *QDDot)
    {
        if (QDot || QDDot) { script().others = true; }
        if (Q)
        {
            ++script().updates;
            script().q = *Q;
            script().kinematics(model, *Q);
        }
    }

    inline Math::SpatialTransform VerifTransform(const Model &model, const unsigned int id)
    {
        if (model.IsFixedBodyId(id))
        {
            const FixedBody &f = model.mFixedBodies[id - model.fixed_body_discriminator];
            return f.mParentTransform * model.X_base[f.mMovableParent];
        }
        return model.X_base.at(id);
    }
    inline Math::Vector3d CalcBodyToBaseCoordinates(Model &model, const Math::VectorNd &Q, unsigned int id, const Math::Vector3d &p, bool update = true)
    {
        if (update) { UpdateKinematicsCustom(model, &Q, NULL, NULL); }
        const Math::SpatialTransform X = VerifTransform(model, id);
        return X.r + X.E.transpose() * p;
    }
    inline Math::Matrix3d CalcBodyWorldOrientation(Model &model, const Math::VectorNd &Q, unsigned int id, bool update = true)
    {
        if (update) { UpdateKinematicsCustom(model, &Q, NULL, NULL); }
        return VerifTransform(model, id).E;
    }
    inline void CalcPointJacobian6D(Model &model, const Math::VectorNd &Q, unsigned int id, const Math::Vector3d &p, Math::MatrixNd &G, bool update = true)
    {
        const Math::Vector3d x = CalcBodyToBaseCoordinates(model, Q, id, p, update);
        const Math::SpatialTransform point(Math::Matrix3d::Identity(), x);
        for (unsigned int j = model.IsFixedBodyId(id) ? model.mFixedBodies[id - model.fixed_body_discriminator].mMovableParent : id; j != 0; j = model.lambda[j])
        {
            const Joint &joint = model.mJoints[j];
            const Math::SpatialMatrix T = (point.toMatrix()) * model.X_base[j].inverse().toMatrix();
            if (joint.mJointType == JointTypeCustom)
            {
                const CustomJoint &c = *model.mCustomJoints[joint.custom_joint_index];
                G.block(0, joint.q_index, 6, c.mDoFCount) = T * c.S;
            }
            else if (joint.mDoFCount == 1) { G.block(0, joint.q_index, 6, 1) = T * model.S[j]; }
            else { G.block(0, joint.q_index, 6, 3) = T * model.multdof3_S[j]; }
        }
    }
    inline void CalcPointJacobian(Model &model, const Math::VectorNd &Q, unsigned int id, const Math::Vector3d &p, Math::MatrixNd &G, bool update = true)
    {
        Math::MatrixNd g = Math::MatrixNd::Zero(6, model.q_size);
        CalcPointJacobian6D(model, Q, id, p, g, update);
        G = g.bottomRows(3);
    }
}
