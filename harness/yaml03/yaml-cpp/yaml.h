// The interface of yaml-cpp 0.3, for which the YAML bridge of the library is
// written, on top of the installed yaml-cpp (the emitter has not changed).
// Whoever includes the bridge has to #undef Node and Parser afterwards.
#pragma once
#include_next <yaml-cpp/yaml.h>
#include <memory>
#include <vector>

namespace YAML
{
    class Node03
    {
        public:
            Node03() {}
            explicit Node03(const YAML::Node &n) { set(n); }
            Node03(const Node03 &) = delete;
            void set(const YAML::Node &n)
            {
                node_ = n;
                keys_.clear();
                children_.clear();
                if (n.IsSequence())
                {
                    for (std::size_t i = 0; i < n.size(); ++i) { children_.emplace_back(new Node03(n[i])); }
                }
                if (n.IsMap())
                {
                    for (const auto &e : n)
                    {
                        keys_.push_back(e.first.as<std::string>());
                        children_.emplace_back(new Node03(e.second));
                    }
                }
            }
            NodeType::value Type() const { return node_.Type(); }
            std::size_t size() const { return node_.IsSequence() || node_.IsMap() ? children_.size() : 0; }
            const Node03 *FindValue(const std::string &key) const
            {
                if (!node_.IsMap())
                {
                    if (node_.IsSequence()) { return NULL; }
                    throw BadDereference();
                }
                for (std::size_t i = 0; i < keys_.size(); ++i) { if (keys_[i] == key) { return children_[i].get(); } }
                return NULL;
            }
            const Node03 &operator[](const std::size_t i) const
            {
                if (!node_.IsSequence() || i >= children_.size()) { throw BadDereference(); }
                return *children_[i];
            }
            template<class T> void get(T &v) const
            {
                if (!node_.IsScalar()) { throw InvalidNode(""); }
                v = node_.as<T>();
            }
            template<class T> void get(std::vector<T> &v) const
            {
                if (!node_.IsSequence()) { throw InvalidNode(""); }
                v.clear();
                v.resize(children_.size());
                for (std::size_t i = 0; i < children_.size(); ++i) { children_[i]->get(v[i]); }
            }
        private:
            YAML::Node node_;
            std::vector<std::string> keys_;
            std::vector<std::unique_ptr<Node03> > children_;
    };
    template<class T> inline void operator>>(const Node03 &n, T &v) { n.get(v); }

    class Parser03
    {
        public:
            void Load(std::istream &in) { docs_ = YAML::LoadAll(in); next_ = 0; }
            bool GetNextDocument(Node03 &n)
            {
                if (next_ >= docs_.size()) { return false; }
                n.set(docs_[next_++]);
                return true;
            }
        private:
            std::vector<YAML::Node> docs_;
            std::size_t next_ = 0;
    };
}
#define Node Node03
#define Parser Parser03
