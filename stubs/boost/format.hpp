// Stand-in for boost::format in the checks of Main.cpp: the directives are rendered to a text in which floating point values
// are names of values (see app.hpp).
#ifndef VP_STUB_FORMAT
#define VP_STUB_FORMAT
#include <stdexcept>
#include <string>
#include <vector>
#include <type_traits>
inline std::string vp_text(double v);
namespace boost
{
	namespace io
	{
		struct format_error : public std::runtime_error { format_error(const char* m) : std::runtime_error(m) {} };
		struct too_many_args : public format_error { too_many_args() : format_error("too many arguments") {} };
		struct too_few_args : public format_error { too_few_args() : format_error("too few arguments") {} };
	}
	class format
	{
		struct Item { std::string before; int arg; bool zero; std::size_t width; };
		std::vector<Item> items;
		std::string tail;
		std::vector<std::string> args;
		int n = 0;
		mutable bool dumped = false;
		void Parse(const std::string& f)
		{
			std::string before;
			int next = 0;
			for (std::size_t i = 0; i < f.size();)
			{
				if (f[i] != '%') { before += f[i++]; continue; }
				if (i + 1 < f.size() && f[i + 1] == '%') { before += '%'; i += 2; continue; }
				i++;
				const bool bar = i < f.size() && f[i] == '|';
				if (bar) { i++; }
				Item it{ before, -1, false, 0 };
				before.clear();
				std::size_t k = i, num = 0;
				while (k < f.size() && f[k] >= '0' && f[k] <= '9') { num = num*10 + (f[k] - '0'); k++; }
				if (k > i && k < f.size() && (f[k] == '$' || f[k] == '%'))
				{
					it.arg = static_cast<int>(num) - 1;
					i = k + 1;
					if (f[k] == '%') { Add(it); continue; }
				}
				while (i < f.size() && (f[i] == '0' || f[i] == '-' || f[i] == '+' || f[i] == ' ' || f[i] == '#')) { if (f[i] == '0') { it.zero = true; } i++; }
				while (i < f.size() && f[i] >= '0' && f[i] <= '9') { it.width = it.width*10 + (f[i] - '0'); i++; }
				if (i < f.size() && f[i] == '.') { i++; while (i < f.size() && f[i] >= '0' && f[i] <= '9') { i++; } }
				while (i < f.size() && (f[i] == 'l' || f[i] == 'h' || f[i] == 'z')) { i++; }
				if (bar) { while (i < f.size() && f[i] != '|') { i++; } }
				if (i < f.size()) { i++; }
				if (it.arg < 0) { it.arg = next++; }
				Add(it);
			}
			tail = before;
		}
		void Add(const Item& it) { items.push_back(it); if (it.arg + 1 > n) { n = it.arg + 1; } }
		template<typename T> static std::string Text(const T& v)
		{
			if constexpr (std::is_floating_point_v<T>) { return vp_text(v); }
			else if constexpr (std::is_same_v<T, char>) { return std::string(1, v); }
			else if constexpr (std::is_integral_v<T>) { return std::to_string(v); }
			else { return std::string(v); }
		}
	public:
		explicit format(const char* f) { Parse(f); }
		explicit format(const std::string& f) { Parse(f); }
		template<typename T> format& operator%(const T& v)
		{
			if (dumped) { args.clear(); dumped = false; }
			if (static_cast<int>(args.size()) >= n) { throw io::too_many_args(); }
			args.push_back(Text<std::decay_t<T>>(v));
			return *this;
		}
		std::string str() const
		{
			if (static_cast<int>(args.size()) < n) { throw io::too_few_args(); }
			std::string r;
			for (const auto& it : items)
			{
				r += it.before;
				std::string a = args[it.arg];
				// the width of a floating point value is not rendered
				if (a.empty() || a[0] != '\x01') { while (a.size() < it.width) { a = (it.zero ? "0" : " ") + a; } }
				r += a;
			}
			dumped = true;
			return r + tail;
		}
	};
	inline std::string str(const format& f) { return f.str(); }
}
#endif
