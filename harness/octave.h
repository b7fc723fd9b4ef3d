// Reads the text written by the logger: assignments of the language of Octave.
#pragma once
#include <cctype>
#include <cstdlib>
namespace verif
{
    class Octave
    {
            const std::string &t_;
            std::size_t p_ = 0;
            [[noreturn]] void bad(const std::string &what) { throw std::runtime_error("not a program of Octave: " + what + " at: " + t_.substr(p_, 60)); }
            // spaces, continuations of lines
            void space(const bool lines)
            {
                for (;;)
                {
                    if (p_ < t_.size() && (t_[p_] == ' ' || t_[p_] == '\t' || (lines && (t_[p_] == '\n' || t_[p_] == '\r')))) { ++p_; }
                    else if (t_.compare(p_, 3, "...") == 0) { p_ = t_.find('\n', p_); if (p_ == std::string::npos) { bad("continuation"); } ++p_; }
                    else { return; }
                }
            }
            bool take(const char c) { if (p_ < t_.size() && t_[p_] == c) { ++p_; return true; } return false; }
            std::string identifier()
            {
                const std::size_t b = p_;
                if (p_ >= t_.size() || !(std::isalpha(t_[p_]) || t_[p_] == '_')) { bad("identifier"); }
                while (p_ < t_.size() && (std::isalnum(t_[p_]) || t_[p_] == '_')) { ++p_; }
                return t_.substr(b, p_ - b);
            }
            std::string name()
            {
                std::string r = identifier();
                for (;;)
                {
                    if (take('.')) { r += "." + identifier(); }
                    else if (take('{'))
                    {
                        const std::size_t b = p_;
                        while (p_ < t_.size() && std::isdigit(t_[p_])) { ++p_; }
                        if (b == p_ || t_[b] == '0' || !take('}')) { bad("index"); }
                        r += "{" + t_.substr(b, p_ - b - 1) + "}";
                    }
                    else { return r; }
                }
            }
            json number()
            {
                const std::size_t b = p_;
                while (p_ < t_.size() && (std::isalnum(t_[p_]) || t_[p_] == '.' || t_[p_] == '+' || t_[p_] == '-')) { ++p_; }
                const std::string s = t_.substr(b, p_ - b);
                char *e;
                const double v = std::strtod(s.c_str(), &e);
                if (s.empty() || *e != '\0' || s.find('x') != std::string::npos) { p_ = b; bad("number"); }
                return num(v);
            }
            json value()
            {
                if (take('\''))
                {
                    std::string r;
                    for (;;)
                    {
                        if (p_ >= t_.size() || t_[p_] == '\n') { bad("string"); }
                        const char c = t_[p_++];
                        if (c != '\'') { r += c; continue; }
                        if (!take('\'')) { return r; }
                        r += '\'';
                    }
                }
                json rows = json::array();
                if (!take('[')) { rows.push_back(json::array({number()})); return rows; }
                json row = json::array();
                for (;;)
                {
                    space(false);
                    if (take(']')) { if (!row.empty()) { rows.push_back(row); } break; }
                    if (take(',')) { continue; }
                    if (take(';') || take('\n')) { if (!row.empty()) { rows.push_back(row); } row = json::array(); continue; }
                    row.push_back(number());
                }
                for (auto &r : rows) { if (r.size() != rows[0].size()) { bad("sizes of rows"); } }
                return rows;
            }

        public:
            explicit Octave(const std::string &t) : t_(t) {}
            // values of variables by name, matrices are lists of rows
            json parse()
            {
                json r;
                r["entries"] = json::object();
                r["repeated"] = 0;
                for (;;)
                {
                    space(true);
                    if (p_ >= t_.size()) { return r; }
                    const std::string n = name();
                    space(false);
                    if (!take('=')) { bad("="); }
                    space(false);
                    const json v = value();
                    space(false);
                    if (!take(';')) { bad(";"); }
                    space(false);
                    if (p_ < t_.size() && !take('\n') && t_[p_] != '\n') { bad("end of line"); }
                    if (r["entries"].count(n)) { r["repeated"] = r["repeated"].get<int>() + 1; }
                    r["entries"][n] = v;
                }
            }
    };
    // what was logged by F
    template<class F> inline json logged(F f)
    {
        std::ostringstream text;
        {
            humoto::Logger logger(text);
            f(logger);
        }
        const std::string t = text.str();
        try { return Octave(t).parse(); }
        catch (const std::exception &e) { json r; r["bad"] = e.what(); return r; }
    }
}
