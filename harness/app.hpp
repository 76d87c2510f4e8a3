// Main.cpp with stand-ins for files, console, the XML reader and text formatting. Texts are recorded; a floating point value in
// a text is a name of the value, so that it stays symbolic.
#ifndef VP_APP_HPP
#define VP_APP_HPP
#include "vp.hpp"
#include <algorithm>
#include <array>
#include <chrono>
#include <cmath>
#include <cstdlib>
#include <ctime>
#include <functional>
#include <iterator>
#include <limits>
#include <locale>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
#include <iostream>
#include <fstream>
#include <sstream>
#include <iomanip>
#include <boost/algorithm/string.hpp>
#include <boost/format.hpp>
#include "mps.hpp"

inline std::string vp_text(double v) { return "\x01" + std::to_string(vp_tok(v)) + "\x02"; }

struct VpFile { std::string name, text; };
static std::vector<VpFile>& Files() { static std::vector<VpFile> f; return f; }
static std::vector<std::string>& Opened() { static std::vector<std::string> f; return f; }
static std::string& Console() { static std::string s; return s; }
static std::vector<std::string>& Systems() { static std::vector<std::string> s; return s; }

namespace std
{
	struct vp_endl_t {};
	constexpr vp_endl_t vp_endl{};
	class vp_ostream
	{
	protected:
		int target = 0;	// 0: own buffer, 1: console, 2: file
		int file = -1;
		string buffer;
		void Put(const string& s)
		{
			if (target == 1) { Console() += s; }
			else if (target == 2) { if (file >= 0) { Files()[file].text += s; } }
			else { buffer += s; }
		}
	public:
		vp_ostream(int t = 0) : target(t) {}
		vp_ostream(vp_ostream&&) = default;
		vp_ostream(const vp_ostream&) = delete;
		template<typename T> vp_ostream& operator<<(const T& v)
		{
			using D = decay_t<T>;
			if constexpr (is_same_v<D, vp_endl_t>) { Put("\n"); }
			else if constexpr (is_same_v<D, char> || is_same_v<D, signed char> || is_same_v<D, unsigned char>) { Put(string(1, static_cast<char>(v))); }
			else if constexpr (is_same_v<D, bool>) { Put(v ? "1" : "0"); }
			else if constexpr (is_floating_point_v<D>) { Put(vp_text(v)); }
			else if constexpr (is_integral_v<D>) { Put(to_string(v)); }
			else if constexpr (is_convertible_v<T, string>) { Put(string(v)); }
			else if constexpr (is_same_v<D, string_view>) { Put(string(v)); }
			else if constexpr (is_same_v<D, boost::format>) { Put(v.str()); }
			return *this;	// anything else is a manipulator
		}
		template<typename R, typename A> vp_ostream& operator<<(R& (*)(A&)) { return *this; }
		vp_ostream& put(char c) { Put(string(1, c)); return *this; }
		vp_ostream& write(const char* p, long n) { Put(string(p, n)); return *this; }
		vp_ostream& flush() { return *this; }
		long precision(long = 0) { return 6; }
		long width(long = 0) { return 0; }
		template<typename... A> void setf(A...) {}
		template<typename... A> void imbue(const A&...) {}
		template<typename... A> void exceptions(A...) {}
		bool good() const { return true; }
		bool fail() const { return false; }
		bool bad() const { return false; }
		explicit operator bool() const { return true; }
		bool operator!() const { return false; }
		string str() const { return buffer; }
		void str(const string& s) { buffer = s; }
	};
	class vp_ofstream : public vp_ostream
	{
	public:
		vp_ofstream() : vp_ostream(2) {}
		explicit vp_ofstream(const string& name, ios_base::openmode m = ios_base::out) : vp_ostream(2) { open(name, m); }
		void open(const string& name, ios_base::openmode m = ios_base::out)
		{
			Opened().push_back(name);
			file = -1;
			for (size_t i = 0; i < Files().size(); i++) { if (Files()[i].name == name) { file = static_cast<int>(i); } }
			if (file < 0) { file = static_cast<int>(Files().size()); Files().push_back({ name, "" }); }
			else if (!(m & ios_base::app) && !(m & ios_base::in)) { Files()[file].text.clear(); }
		}
		void close() { file = -1; }
		bool is_open() const { return file >= 0; }
	};
	struct vp_ostringstream : public vp_ostream { vp_ostringstream() : vp_ostream(0) {} };
	static vp_ostream vp_cout(1), vp_cerr(1);
}
static int vp_system(const char* s) { Systems().push_back(s); return 0; }

#include <boost/property_tree/ptree.hpp>
boost::property_tree::ptree& vp_xml() { static boost::property_tree::ptree t; return t; }
std::string& vp_xml_name() { static std::string t; return t; }

#define ofstream vp_ofstream
#define ostringstream vp_ostringstream
#define stringstream vp_ostringstream
#define ostream vp_ostream
#define cout vp_cout
#define cerr vp_cerr
#define clog vp_cerr
#define endl vp_endl
#define system vp_system
#define main app_main
#include "Main.cpp"
#undef main
#undef system
#undef endl
#undef cout
#undef cerr
#undef clog
#undef ostream
#undef ofstream
#undef ostringstream
#undef stringstream

// ---- reading recorded texts
static std::vector<std::string> Lines(const std::string& t)
{
	std::vector<std::string> r;
	std::string l;
	for (char c : t) { if (c == '\n') { r.push_back(l); l.clear(); } else { l += c; } }
	if (!l.empty()) { r.push_back(l); }
	return r;
}
static std::vector<std::string> Cells(const std::string& t)
{
	std::vector<std::string> r;
	std::string l;
	for (char c : t) { if (c == ',') { r.push_back(l); l.clear(); } else if (c != ' ' && c != '\t' && c != '\r') { l += c; } }
	r.push_back(l);
	return r;
}
// the value a cell shows; ok is set to false if it shows none
static double CellValue(const std::string& c, bool& ok)
{
	if (c.empty()) { ok = false; return 0; }
	if (c[0] == '\x01')
	{
		int n = 0;
		std::size_t i = 1;
		for (; i < c.size() && c[i] >= '0' && c[i] <= '9'; i++) { n = n*10 + (c[i] - '0'); }
		if (i + 1 != c.size()) { ok = false; }
		return vp_untok(n);
	}
	double v = 0, s = 1;
	std::size_t i = 0;
	if (c[0] == '-') { s = -1; i = 1; }
	for (; i < c.size(); i++) { if (c[i] < '0' || c[i] > '9') { ok = false; return 0; } v = v*10 + (c[i] - '0'); }
	return s*v;
}
#ifdef VP_NATIVE
static std::string Num(double v) { char b[64]; std::snprintf(b, sizeof b, "%.17g", v); return b; }
#else
static std::string Num(double v) { return vp_text(v); }
#endif
#endif
