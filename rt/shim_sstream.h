// Replaces std::stringstream for symbolic execution only (native replay uses the real one).
#pragma once
#include <istream>
#include <ostream>
#include <sstream>
#include <string>
namespace std
{
class vp_stringstream
{
    string mS; size_t mPos = 0; bool mEof = false, mFail = false;
public:
    vp_stringstream() {}
    explicit vp_stringstream(const string& s) : mS(s) {}
    string str() const { return mS; }
    void str(const string& s) { mS = s; mPos = 0; }
    bool eof() const { return mEof; }
    bool good() const { return !mEof && !mFail; }
    bool fail() const { return mFail; }
    explicit operator bool() const { return !mFail; }
    bool operator!() const { return mFail; }
    vp_stringstream& operator<<(const string& v) { mS += v; return *this; }
    vp_stringstream& operator<<(const char* v) { mS += v; return *this; }
    vp_stringstream& operator<<(char v) { mS += v; return *this; }
    vp_stringstream& operator<<(unsigned char v) { mS += (char)v; return *this; }
    vp_stringstream& operator<<(signed char v) { mS += (char)v; return *this; }
    vp_stringstream& operator<<(int v) { mS += to_string(v); return *this; }
    vp_stringstream& operator<<(unsigned v) { mS += to_string(v); return *this; }
    vp_stringstream& operator<<(long v) { mS += to_string(v); return *this; }
    vp_stringstream& operator<<(unsigned long v) { mS += to_string(v); return *this; }
    vp_stringstream& operator<<(long long v) { mS += to_string(v); return *this; }
    vp_stringstream& operator<<(unsigned long long v) { mS += to_string(v); return *this; }
    vp_stringstream& operator<<(short v) { mS += to_string((int)v); return *this; }
    vp_stringstream& operator<<(unsigned short v) { mS += to_string((unsigned)v); return *this; }
    vp_stringstream& operator<<(vp_stringstream& (*)(vp_stringstream&)) { mS += '\n'; return *this; }
    vp_stringstream& operator<<(ostream& (*f)(ostream&)) { if (f == static_cast<ostream& (*)(ostream&)>(std::endl)) mS += '\n'; return *this; } // std::endl, std::flush
    friend vp_stringstream& getline(vp_stringstream& in, string& out, char d);
};
inline vp_stringstream& getline(vp_stringstream& in, string& out, char d)
    {
        if (in.mEof || in.mFail) { in.mFail = true; return in; }
        out.clear();
        bool any = false;
        while (true) {
            if (in.mPos >= in.mS.size()) { in.mEof = true; if (!any) in.mFail = true; break; }
            char c = in.mS[in.mPos++];
            any = true;
            if (c == d) break;
            out += c;
        }
        return in;
    }
inline vp_stringstream& getline(vp_stringstream& in, string& out) { return getline(in, out, '\n'); }
} // namespace std
#define stringstream vp_stringstream
#define istringstream vp_stringstream
#define ostringstream vp_stringstream
