// Replay harness: matrices of blocks, block Kronecker products, helpers of
// linear algebra (Blocks.tla, Tools.tla).
#include "common.h"
#include "humoto/rigid_body.h"
#include "humoto/obstacle_avoidance.h"
#include <memory>
using namespace verif;

namespace
{
    using etools::MatrixSparsityType;
    using etools::BlockMatrix;
    typedef Eigen::MatrixXd M;

    // rows of a matrix which may have no rows or columns
    M shaped(const json &j, const std::ptrdiff_t rows, const std::ptrdiff_t cols)
    {
        M m(rows, cols);
        for (std::ptrdiff_t i = 0; i < rows; ++i)
            for (std::ptrdiff_t k = 0; k < cols; ++k) { m(i, k) = toD(j[i][k]); }
        return m;
    }
    // blocks of 1 x 1 are numbers
    template<class D> json blk(const Eigen::DenseBase<D> &b) { return mat(b); }
    json blk(const double v) { json r = json::array(); r.push_back(json::array({num(v)})); return r; }
    template<class B> void put(B b, const M &m) { b = m; }
    void put(double &b, const M &m) { b = m(0, 0); }

    struct Object
    {
        virtual ~Object() {}
        virtual json step(const json &s) = 0;
        virtual json view() const = 0;
    };

    template<int R, int C, MatrixSparsityType::Type S> struct Typed : public Object
    {
        typedef BlockMatrix<R, C, S> BM;
        typedef etools::BlockMatrixInterface<R, C, S> Interface;
        typedef etools::ConstBlockMatrixInterface<R, C, S> ConstInterface;
        enum { tri = (S == MatrixSparsityType::LEFT_LOWER_TRIANGULAR), diag = (S == MatrixSparsityType::DIAGONAL), scalar = (R == 1 && C == 1) };
        BM bm;
        // results are assigned to the same matrices again and again
        M res, kres;
        Eigen::VectorXd vres;

        static int dyn(const int fixed, const int n) { return fixed > 0 ? etools::MatrixBlockSizeType::UNDEFINED : n; }
        Typed(const int br, const int bc) : bm(dyn(R, br), dyn(C, bc)) {}

        template<class B> static json sizes(const B &b)
        {
            return json::array({b.getNumberOfBlocksVertical(), b.getNumberOfBlocksHorizontal(), b.getBlockRowsNum(), b.getBlockColsNum(), b.getNumberOfRows(), b.getNumberOfColumns()});
        }
        json view() const
        {
            json r;
            r["sizes"] = sizes(bm);
            r["raw"] = mat(bm.getRaw());
            return r;
        }
        template<class B> static json all(const B &b)
        {
            json r = json::array();
            for (int i = 0; i < b.getNumberOfBlocksVertical(); ++i)
            {
                json row = json::array();
                for (int j = 0; j < b.getNumberOfBlocksHorizontal(); ++j) { row.push_back(blk(b(i, j))); }
                r.push_back(row);
            }
            return r;
        }
        template<class B> static json parts(const json &s, B &b)
        {
            const int k = s["k"], f = s["f"], m = s["m"], k2 = s["k2"], f2 = s["f2"], m2 = s["m2"];
            json r;
            r["blocks"] = all(b);
            r["diag"] = json::array();
            for (int i = 0; i < std::min(b.getNumberOfBlocksVertical(), b.getNumberOfBlocksHorizontal()); ++i) { r["diag"].push_back(blk(b(i))); }
            r["col"] = mat(b.column(k, f, m)); r["colrest"] = mat(b.column(k, f)); r["colall"] = mat(b.column(k));
            r["row"] = mat(b.row(k2, f2, m2)); r["rowrest"] = mat(b.row(k2, f2)); r["rowall"] = mat(b.row(k2));
            return r;
        }

        // products which exist only for some types
        struct Yes {};
        struct No {};
        template<bool b, class D = void> struct If { typedef Yes Type; };
        template<class D> struct If<false, D> { typedef No Type; };

        json lmul(const M &X, Yes) { bm.multiplyLeft(res, X); json r; r["res"] = mat(res); return r; }
        json lmul(const M &, No) { throw std::logic_error("no left product"); }
        json bmulAny(const M &X, const int k, Yes)
        {
            BlockMatrix < C, (C > 0 ? 2 : -1), MatrixSparsityType::NONE > rhs(X, dyn(C, bm.getBlockColsNum()), C > 0 ? 0 : k);
            json r; r["res"] = mat(bm * rhs); return r;
        }
        json bmulAny(const M &, int, No) { throw std::logic_error("no product"); }
        json bmul(const M &X, const int k)
        {
            BlockMatrix < C, (C > 0 ? 2 : -1), MatrixSparsityType::DIAGONAL > rhs(X, dyn(C, bm.getBlockColsNum()), C > 0 ? 0 : k);
            json r; r["res"] = mat(bm * rhs); return r;
        }

        template<class K> json kron(const json &s, const K &k)
        {
            const int h = s["rows"], w = s["cols"];
            json r;
            if (s["block"].get<bool>())
            {
                M big = shaped(s["big"], h + 2, w + 3);
                k.evaluate(big.block(1, 2, h, w));
                r["res"] = mat(big);
            }
            else
            {
                k.evaluate(kres);
                if (M(k.evaluate()) != kres) { throw std::runtime_error("evaluate() differs"); }
                r["res"] = mat(kres);
            }
            return r;
        }
        // (a selection of rows can be evaluated to an existing matrix only)
        template<class K> json kronSel(const json &s, const K &k)
        {
            const int h = s["rows"], w = s["cols"];
            json r;
            if (s["block"].get<bool>())
            {
                M big = shaped(s["big"], h + 2, w + 3);
                k.evaluate(big.block(1, 2, h, w));
                r["res"] = mat(big);
            }
            else { k.evaluate(kres); r["res"] = mat(kres); }
            return r;
        }
        template<class K> json kronvec(const K &k, const Eigen::VectorXd &v, Yes)
        {
            json r;
            const Eigen::VectorXd y = k * v;
            k.multiplyRight(vres, v);
            if (y != vres) { throw std::runtime_error("products differ"); }
            r["res"] = vec(y);
            return r;
        }
        template<class K> json kronvec(const K &, const Eigen::VectorXd &, No) { throw std::logic_error("no product"); }

        template<int r, int k, class K> json krondiag2(const json &s, const K &kr, const M &X)
        {
            const int rr = s["r"], kk = s["k"];
            BlockMatrix<r, k, MatrixSparsityType::DIAGONAL> d(X, r > 0 ? 0 : rr, k > 0 ? 0 : kk);
            const M y = kr * d;
            kr.multiplyRight(res, d);
            if (y != res) { throw std::runtime_error("products differ"); }
            json o; o["res"] = mat(y); return o;
        }
        template<class K> json krondiag(const json &s, const K &kr)
        {
            const int r = s["r"], k = s["k"], nb = s["nb"];
            const M X = shaped(s["X"], r * nb, k * nb);
            if (r == 2 && k == 3) { return krondiag2<2, 3>(s, kr, X); }
            if (r == 3 && k == 1) { return krondiag2<3, 1>(s, kr, X); }
            return krondiag2 < -1, -1 > (s, kr, X);
        }
        template<int r, int k, class K> json diagkron2(const json &s, const K &kr, const M &X)
        {
            const int rr = s["r"], kk = s["k"];
            BlockMatrix<r, k, MatrixSparsityType::DIAGONAL> d(X, r > 0 ? 0 : rr, k > 0 ? 0 : kk);
            const M y = d * kr;
            kr.multiplyLeft(res, d);
            if (y != res) { throw std::runtime_error("products differ"); }
            json o; o["res"] = mat(y); return o;
        }
        template<class K> json diagkron(const json &s, const K &kr, Yes)
        {
            const int r = s["r"], k = s["k"], nb = s["nb"];
            const M X = shaped(s["X"], r * nb, k * nb);
            if (r == 2 && k == 2) { return diagkron2<2, 2>(s, kr, X); }
            if (r == 3 && k == 2) { return diagkron2<3, 2>(s, kr, X); }
            return diagkron2 < -1, -1 > (s, kr, X);
        }
        template<class K> json diagkron(const json &, const K &, No) { throw std::logic_error("no product"); }

        json step(const json &s)
        {
            const std::string op = s["op"];
            json r;
            if (op == "set")
            {
                const M m = shaped(s["M"], s["rows"], s["cols"]);
                // a new matrix or an assignment
                if (s["how"] == 1) { bm.set(m); }
                else
                {
                    bm.set(m);
                    BM other(m, dyn(R, bm.getBlockRowsNum()), dyn(C, bm.getBlockColsNum()));
                    bm = other;
                }
                return view();
            }
            if (op == "zero")
            {
                if (s["square"]) { bm.setZero(s["nv"].get<int>()); } else { bm.setZero(s["nv"].get<int>(), s["nh"].get<int>()); }
                return view();
            }
            if (op == "fill")
            {
                if (s["square"]) { bm.resize(s["nv"].get<int>()); } else { bm.resize(s["nv"].get<int>(), s["nh"].get<int>()); }
                for (std::size_t i = 0; i < s["blocks"].size(); ++i)
                    for (std::size_t j = 0; j < s["blocks"][i].size(); ++j) { put(bm(i, j), toM(s["blocks"][i][j])); }
                return view();
            }
            if (op == "write")
            {
                const M B = toM(s["B"]);
                const int i = s["i"], j = s["j"];
                if (s["iface"])
                {
                    M raw = bm.getRaw();
                    Interface iface(raw, dyn(R, bm.getBlockRowsNum()), dyn(C, bm.getBlockColsNum()));
                    put(iface(i, j), B);
                    bm.set(raw);
                }
                else if (s["diag"]) { put(bm(i), B); }
                else { put(bm(i, j), B); }
                return view();
            }
            if (op == "line")
            {
                const int k = s["k"], f = s["first"], n = s["num"];
                const bool rest = s["rest"];
                if (s["col"])
                {
                    const M B = shaped(s["B"], n * bm.getBlockRowsNum(), bm.getBlockColsNum());
                    if (rest && f == 0) { bm.column(k) = B; } else if (rest) { bm.column(k, f) = B; } else { bm.column(k, f, n) = B; }
                }
                else
                {
                    const M B = shaped(s["B"], bm.getBlockRowsNum(), n * bm.getBlockColsNum());
                    if (rest && f == 0) { bm.row(k) = B; } else if (rest) { bm.row(k, f) = B; } else { bm.row(k, f, n) = B; }
                }
                return view();
            }
            if (op == "parts")
            {
                if (s["iface"])
                {
                    const ConstInterface ci(bm.getRaw(), dyn(R, bm.getBlockRowsNum()), dyn(C, bm.getBlockColsNum()));
                    return parts(s, ci);
                }
                const BM &c = bm;
                r = parts(s, c);
                if (r != parts(s, bm)) { throw std::runtime_error("access to a constant matrix differs"); }
                return r;
            }
            if (op == "blocksize")
            {
                bm.setBlockSize(R > 0 ? 0 : s["br"].get<int>(), C > 0 ? 0 : s["bc"].get<int>());
                return view();
            }
            if (op == "mul")
            {
                const M X = shaped(s["X"], s["rows"], s["cols"]);
                const M y = bm * X;
                bm.multiplyRight(res, X);
                if (y != res) { throw std::runtime_error("products differ"); }
                r["res"] = mat(y);
                return r;
            }
            if (op == "lmul") { return lmul(shaped(s["X"], s["rows"], s["cols"]), typename If<diag>::Type()); }
            if (op == "bmul")
            {
                const M X = shaped(s["X"], s["rows"], s["cols"]);
                if (s["diag"]) { return bmul(X, s["k"]); }
                return bmulAny(X, s["k"], typename If<diag>::Type());
            }
            if (op == "select")
            {
                const int k = s["k"];
                const typename BM::SelectionMap sel = bm.selectRowInBlocks(k);
                json v;
                v["sizes"] = sizes(sel);
                v["raw"] = mat(sel.getRaw());
                r["view"] = v;
                r["matrix"] = mat(bm.selectRowInBlocksAsMatrix(k));
                r["blocks"] = all(sel);
                const M X = toM(s["X"]);
                r["res"] = mat(sel * X);
                return r;
            }
            const int id = s["id"];
            if (op == "diagkron") { return diagkron(s, bm.getBlockKroneckerProduct(id), typename If < tri && scalar >::Type()); }
            const int src = s["src"];
            if (src >= 0)
            {
                typename BM::SelectionMap sel = bm.selectRowInBlocks(src);
                if (op == "kron") { return kronSel(s, sel.getBlockKroneckerProduct(id)); }
                if (op == "kronvec") { return kronvec(sel.getBlockKroneckerProduct(id), toV(s["v"]), typename If < !tri >::Type()); }
                if (op == "krondiag") { return krondiag(s, sel.getBlockKroneckerProduct(id)); }
            }
            else
            {
                if (op == "kron") { return kron(s, bm.getBlockKroneckerProduct(id)); }
                if (op == "kronvec") { return kronvec(bm.getBlockKroneckerProduct(id), toV(s["v"]), typename If < !tri >::Type()); }
                if (op == "krondiag") { return krondiag(s, bm.getBlockKroneckerProduct(id)); }
            }
            throw std::logic_error("unknown op " + op);
        }
    };

    struct BlocksMachine : public Machine
    {
        std::unique_ptr<Object> o;
        json step(const json &s)
        {
            if (s["op"] != "setup") { return o->step(s); }
            const int r = s["type"]["r"], c = s["type"]["c"], br = s["br"], bc = s["bc"];
            const std::string k = s["type"]["s"];
            const MatrixSparsityType::Type N = MatrixSparsityType::NONE, D = MatrixSparsityType::DIAGONAL, T = MatrixSparsityType::LEFT_LOWER_TRIANGULAR;
#define TYPE(R, C, NAME, S) if (r == (R > 0 ? R : 0) && c == (C > 0 ? C : 0) && k == NAME) { o.reset(new Typed<R, C, S>(br, bc)); }
            TYPE(1, 1, "none", N) TYPE(1, 1, "diag", D) TYPE(1, 1, "tri", T) TYPE(2, 3, "none", N) TYPE(2, 2, "diag", D) TYPE(2, 3, "diag", D) TYPE(3, 2, "tri", T)
            TYPE(-1, -1, "none", N) TYPE(-1, -1, "diag", D) TYPE(-1, -1, "tri", T) TYPE(2, -1, "none", N) TYPE(-1, 3, "none", N) TYPE(2, -1, "tri", T) TYPE(-1, 3, "diag", D)
#undef TYPE
            return o->view();
        }
    };
}

namespace
{
    // {r, c, M}
    M sized(const json &j) { return shaped(j["M"], j["r"].get<int>(), j["c"].get<int>()); }
    template<class D> json viewOf(const Eigen::DenseBase<D> &m)
    {
        json r;
        r["size"] = json::array({m.rows(), m.cols()});
        r["M"] = mat(m);
        return r;
    }

    struct ToolsMachine : public Machine
    {
        M cur, acc;
        humoto::LeftRightContainer<int> pair;

        json step(const json &s)
        {
            const std::string op = s["op"];
            json r;
            if (op == "setup") { pair.setLeft(0); pair.setRight(0); return viewOf(cur); }
            if (op == "new") { cur = sized(s["m"]); return viewOf(cur); }
            if (op == "ata")
            {
                const M A = sized(s["A"]);
                if (s["place"]) { etools::getATA(acc, A, s["off"].get<int>(), s["size"].get<int>()); }
                else { etools::getATA(acc, A); }
                return viewOf(acc);
            }
            if (op == "addata")
            {
                const M A = sized(s["A"]);
                if (s["place"]) { etools::addATA(acc, A, s["off"].get<int>()); } else { etools::addATA(acc, A); }
                return viewOf(acc);
            }
            if (op == "sym") { M c = acc; etools::convertLLTtoSymmetric(c); return viewOf(c); }
            if (op == "transform")
            {
                const Eigen::Matrix3d rot = toM(s["R"]);
                const Eigen::Vector3d t = toV(s["t"]);
                const M X = sized(s["X"]);
                if (s["fixed"])
                {
                    M res(3, X.cols());
                    for (int i = 0; i < X.cols(); ++i) { const etools::Vector3 x = X.col(i); res.col(i) = etools::transform(x, rot, t); }
                    r["res"] = mat(res);
                }
                else { r["res"] = mat(etools::transform(X, rot, t)); }
                return r;
            }
            if (op == "obstacle")
            {
                // no obstacle of the library is concrete
                struct Obstacle : public humoto::obstacle_avoidance::ObstacleBase
                {
                    Obstacle() {}
                    Obstacle(const etools::Vector3 &p, const etools::Vector3 &a) : humoto::obstacle_avoidance::ObstacleBase(p, a) {}
                    void updateConstraints(const humoto::ControlProblem &, const humoto::Solution &, const double) {}
                    void resetConstraints(const humoto::ControlProblem &) {}
                };
                humoto::rigidbody::RigidBodyState b;
                const etools::Vector3 p = toV(s["state"][0]), a = toV(s["state"][3]);
                b.position_ = p; b.velocity_ = toV(s["state"][1]); b.acceleration_ = toV(s["state"][2]);
                b.rpy_ = a; b.angular_velocity_ = toV(s["state"][4]); b.angular_acceleration_ = toV(s["state"][5]);
                std::unique_ptr<Obstacle> o(s["new"] ? new Obstacle(p, a) : new Obstacle());
                if (!s["new"]) { if (s["still"]) { o->updateState(b); o->updateState(p, a); } else { o->updateState(b); } }
                r["state"] = {vec(o->position_), vec(o->velocity_), vec(o->acceleration_), vec(o->rpy_), vec(o->angular_velocity_), vec(o->angular_acceleration_)};
                return r;
            }
            if (op == "cross")
            {
                const etools::Vector3 v = toV(s["v"]);
                const M X = sized(s["X"]), Y = sized(s["Y"]);
                const etools::CrossProductMatrix c(v);
                r["mat"] = mat(c.eval());
                bool same = etools::CrossProductMatrix::eval(v) == c.eval();
                const M right = c * X, left = Y * c;
                r["left"] = mat(left);
                r["right"] = mat(right);
                // columns and rows, fixed sizes
                for (int i = 0; i < X.cols(); ++i) { const etools::Vector3 x = X.col(i), y = c * x; same = same && (y == right.col(i)); }
                if (X.cols() == 3) { const etools::Matrix3 x = X, y = c * x; same = same && (y == right); }
                if (Y.rows() == 2) { const etools::Matrix2x3 y = Y; const M z = y * c; same = same && (z == left); }
                r["same"] = same;
                return r;
            }
            if (op == "diagmats")
            {
                std::vector<M> ms;
                for (const json &m : s["ms"]) { ms.push_back(sized(m)); }
                cur = etools::makeBlockDiagonal(ms);
                return viewOf(cur);
            }
            if (op == "diagcopies") { cur = etools::makeBlockDiagonal(sized(s["m"]), s["k"].get<int>()); return viewOf(cur); }
            if (op == "kronid")
            {
                return viewOf(etools::multiplyBlockKroneckerIdentity(sized(s["m"]), s["br"].get<int>(), s["bc"].get<int>(), s["id"].get<int>()));
            }
            if (op == "vcat")
            {
                std::vector<M> ms;
                for (const json &m : s["ms"]) { ms.push_back(sized(m)); }
                M res = M::Constant(2, 2, 7);
                etools::concatenateMatricesVertically(res, ms);
                cur = res;
                return viewOf(cur);
            }
            if (op == "hcat")
            {
                std::vector<M> ms;
                for (const json &m : s["ms"]) { ms.push_back(sized(m)); }
                M res = M::Constant(2, 2, 7);
                if (ms.size() == 2) { etools::concatenateMatricesHorizontally(res, ms[0], ms[1]); }
                else { etools::concatenateMatricesHorizontally(res, ms[0], ms[1], ms[2]); }
                if (!s["keep"].get<bool>()) { cur = res; }
                return viewOf(res);
            }
            if (op == "rmrow") { etools::removeRow(cur, s["k"].get<int>()); return viewOf(cur); }
            if (op == "rmcol") { etools::removeColumn(cur, s["k"].get<int>()); return viewOf(cur); }
            if (op == "selrows")
            {
                const int step = s["step"], first = s["first"];
                const etools::SelectionMatrix sel(step, first);
                const M &c = cur;
                r["rows"] = viewOf(first == 0 ? etools::selectRows(c, step) : etools::selectRows(c, step, first));
                r["matrix"] = viewOf(sel * c);
                r["times"] = mat(M((sel * c) * sized(s["X"])));
                return r;
            }
            if (op == "unset") { M m = M::Zero(s["r"].get<int>(), s["c"].get<int>()); etools::unsetMatrix(m); return viewOf(m); }
            if (op == "pair")
            {
                const int how = s["how"], v = s["v"];
                const humoto::LeftOrRight::Type side = static_cast<humoto::LeftOrRight::Type>(s["side"].get<int>());
                const bool left = side == humoto::LeftOrRight::LEFT;
                humoto::LeftRightContainer<int> other;
                other.getLeft() = s["other"][0];
                other.getRight() = s["other"][1];
                switch (how)
                {
                case 1: pair[side] = v; break;
                case 2: if (left) { pair.setLeft(v); } else { pair.setRight(v); } break;
                case 3: if (left) { pair.getLeft() = v; } else { pair.getRight() = v; } break;
                case 4: case 5: if (left) { pair.copyLeft(other); } else { pair.copyRight(other); } break;
                default:
                {
                    bool refused = false;
                    try { humoto::LeftOrRight::invert(side); } catch (const std::exception &) { refused = true; }
                    const humoto::LeftRightContainer<int> &c = pair;
                    try { c[side]; refused = false; } catch (const std::exception &) {}
                    if (!refused) { r["accepted"] = true; return r; }
                    pair[side] = v;
                }
                }
                const humoto::LeftRightContainer<int> &c = pair;
                r["left"] = c.getLeft(); r["right"] = c.getRight();
                r["at"] = json::array({c[humoto::LeftOrRight::LEFT], c[humoto::LeftOrRight::RIGHT]});
                r["inverse"] = static_cast<int>(humoto::LeftOrRight::invert(side));
                return r;
            }
            if (op == "location")
            {
                humoto::Location a(s["a"][0].get<int>(), s["a"][1].get<int>()), b, e;
                b.set(s["b"][0].get<int>(), s["b"][1].get<int>());
                r["front"] = a.front(); r["end"] = a.end(); r["equal"] = a == b; r["differ"] = a != b;
                r["fits"] = a.checkLength(s["max"].get<int>());
                r["empty"] = json::array({e.offset_, e.length_, e.end()});
                return r;
            }
            if (op == "units")
            {
                const int ms = s["ms"];
                const double sec = humoto::convertMillisecondToSecond(ms);
                r["sec"] = num(sec);
                r["back"] = humoto::convertSecondToMillisecond(sec);
                r["rounded"] = humoto::convertSecondToMillisecond(std::max(0.0, (ms + 0.1 * s["part"].get<int>()) / 1000.0));
                r["truncated"] = humoto::truncateSecondToMillisecond((ms + 0.1 * (s["tenths"].get<int>() + 1)) / 1000.0);
                r["equal"] = humoto::isApproximatelyEqual(sec, sec + 0.1 * s["tenths"].get<int>() , 0.45) && humoto::isApproximatelyEqual(sec + 0.1 * s["tenths"].get<int>(), sec, 0.45);
                return r;
            }
            throw std::logic_error("unknown op " + op);
        }
    };
}

namespace verif
{
    Machine *makeMachine(const std::string &name, const json &)
    {
        if (name == "blocks") { return new BlocksMachine(); }
        if (name == "tools") { return new ToolsMachine(); }
        throw std::logic_error("unknown machine " + name);
    }
}
